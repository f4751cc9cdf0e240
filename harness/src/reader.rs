//! The reader and the preprocessor on texts.
use crate::build::variant;
use llrl::prelude::*;
use llrl::lexer::Lexer;
use llrl::parser::parse;
use llrl::sexp::{Sexp, SexpRep, Ss};
use llrl::source_loc::SourceLocator;
use serde_json::{json, Value};

pub fn tree(s: &Sexp) -> Value {
    match &s.rep {
        SexpRep::Integer(true, v) => json!({"k":"atom","t":format!("s{}", *v as i64)}),
        SexpRep::Integer(false, v) => json!({"k":"atom","t":format!("u{}", v)}),
        SexpRep::FPNumber(v) => json!({"k":"atom","t":format!("f{:016x}", v.into_inner().to_bits())}),
        SexpRep::Symbol(s) => json!({"k":"sym","s":s}),
        SexpRep::String(s) => json!({"k":"str","s":s}),
        SexpRep::Char(c) => json!({"k":"chr","s":c.to_string()}),
        SexpRep::Bool(b) => json!({"k":"bool","b":b}),
        SexpRep::Native(_) => json!({"k":"native"}),
        SexpRep::List(l) => json!({"k":"list","l":l.iter().map(tree).collect::<Vec<_>>()}),
        SexpRep::ListLike(ll) => json!({"k":"dot",
            "l":std::iter::once(&ll.0).chain(ll.1.iter()).map(tree).collect::<Vec<_>>(),"t":tree(&ll.2)}),
    }
}

/// case: {text, feats:[..]}
pub fn pre(case: &Value) -> Value {
    let mut loc = SourceLocator::temporary();
    let mut ss = match parse::<Ss, _>(&mut loc, Lexer::new(case["text"].as_str().unwrap())).aggregate_errors() {
        Ok(ss) => ss,
        Err(e) => return json!({"stage":"read","err":format!("{}", e)}),
    };
    let trees = |ss: &Ss| ss.ss.iter().map(tree).collect::<Vec<_>>();
    let before = trees(&ss);
    let mut pp = Preprocessor::new();
    for f in case["feats"].as_array().unwrap() {
        pp.enable_feature(f.as_str().unwrap());
    }
    match pp.run(&mut ss) {
        Ok(()) => json!({"ok":true,"l":trees(&ss),"trees":before}),
        Err(e) => json!({"ok":false,"err":variant(&e),"trees":before}),
    }
}

fn located(s: &Sexp, table: &SourceLocationTable) -> Value {
    let at = |l: &llrl::source_loc::Location| json!([l.offset, l.line, l.character]);
    let (_, r) = table.review(s.loc);
    let mut v = match &s.rep {
        SexpRep::List(l) => json!({"k":"list","l":l.iter().map(|s| located(s, table)).collect::<Vec<_>>()}),
        SexpRep::ListLike(ll) => json!({"k":"dot",
            "l":std::iter::once(&ll.0).chain(ll.1.iter()).map(|s| located(s, table)).collect::<Vec<_>>(),"t":located(&ll.2, table)}),
        _ => tree(s),
    };
    let o = v.as_object_mut().unwrap();
    o.insert("at".to_string(), json!([at(&r.start), at(&r.end)]));
    v
}

/// case: {text} -> {ok, x, errs, shown}
pub fn read(case: &Value) -> Value {
    let at = |l: &llrl::source_loc::Location| json!([l.offset, l.line, l.character]);
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&Path::default());
    let r = parse::<Ss, _>(&mut locator, Lexer::new(case["text"].as_str().unwrap()));
    table.complete_locate(locator);
    let mut errs: Vec<Value> = Vec::new();
    for e in r.inner_errors.iter().chain(r.final_result.as_ref().err()) {
        errs.push(json!([at(&e.unexpected.range.start), at(&e.unexpected.range.end)]));
    }
    match r.aggregate_errors() {
        Ok(ss) => json!({"ok":true,"x":ss.ss.iter().map(|s| located(s, &table)).collect::<Vec<_>>(),"errs":errs,"shown":ss.to_string()}),
        Err(_) => json!({"ok":false,"x":[],"errs":errs}),
    }
}
