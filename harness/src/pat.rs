//! Pattern matrices against the exhaustiveness/usefulness checker.
use llrl::ast;
use llrl::pattern_matching as p;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;

struct Env {
    tags: HashMap<String, p::Tag>,
    names: HashMap<ast::ValueCon, String>,
}

fn env(types: &Value) -> Env {
    let mut gen = ast::NodeIdGenerator::in_module(ast::ModuleId::from_index(1));
    let mut tags = HashMap::new();
    let mut names = HashMap::new();
    for cons in types.as_array().unwrap() {
        let named: Vec<(String, p::FiniteCon)> = cons
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let name = c["c"].as_str().unwrap().to_string();
                let arity = c["arity"].as_u64().unwrap() as usize;
                (name, p::FiniteCon::new(ast::ValueCon::Data(gen.generate()), arity))
            })
            .collect();
        let sib: Rc<[p::FiniteCon]> = named.iter().map(|(_, c)| *c).collect::<Vec<_>>().into();
        for (name, con) in named {
            names.insert(con.use_, name.clone());
            tags.insert(name, p::Tag::Finite(con, Rc::clone(&sib)));
        }
    }
    Env { tags, names }
}

fn decode(e: &Env, v: &Value) -> p::Pattern {
    let k = v["k"].as_str().unwrap();
    match k {
        "_" => p::Pattern::Wildcard,
        "con" => p::Pattern::Constructor(
            e.tags[v["c"].as_str().unwrap()].clone(),
            v["ps"].as_array().unwrap().iter().map(|x| decode(e, x)).collect(),
        ),
        "int" => p::Pattern::Constructor(
            p::Tag::Const(ast::Const::Integer(false, v["v"].as_u64().unwrap())),
            vec![],
        ),
        "str" => p::Pattern::Constructor(
            p::Tag::Const(ast::Const::String(v["v"].to_string())),
            vec![],
        ),
        _ => panic!("bad pattern kind {}", k),
    }
}

fn encode(e: &Env, p: &p::Pattern) -> Value {
    match p {
        p::Pattern::Wildcard => json!({"k":"_"}),
        p::Pattern::Constructor(p::Tag::Const(ast::Const::Integer(_, v)), _) => {
            json!({"k":"int","v":v})
        }
        p::Pattern::Constructor(p::Tag::Const(ast::Const::String(v)), _) => {
            json!({"k":"str","v":v.parse::<u64>().unwrap()})
        }
        p::Pattern::Constructor(p::Tag::Const(_), _) => json!({"k":"other"}),
        p::Pattern::Constructor(p::Tag::Finite(c, _), ps) => json!({
            "k":"con","c":e.names[&c.use_],
            "ps": ps.iter().map(|x| encode(e, x)).collect::<Vec<_>>()
        }),
    }
}

/// case: {types:[[{c,arity}]], rows:[[pattern]]} ->
/// {verdict:"ok"} | {verdict:"useless", row:[pattern]} | {verdict:"missing", rows:[[pattern]]}
pub fn run(case: &Value) -> Value {
    let e = env(&case["types"]);
    let rows: Vec<p::Row> = case["rows"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            p::Row::new(
                r.as_array().unwrap().iter().map(|x| decode(&e, x)).collect::<Vec<_>>().into(),
            )
        })
        .collect();
    let enc_row = |r: &p::Row| r.iter().map(|x| encode(&e, x)).collect::<Vec<_>>();
    match p::check(rows) {
        Ok(()) => json!({"verdict":"ok","rows":[]}),
        Err(p::Error::Useless(r)) => json!({"verdict":"useless","rows":[enc_row(&r)]}),
        Err(p::Error::NonExhaustive(m)) => json!({
            "verdict":"missing",
            "rows": m.rows().map(enc_row).collect::<Vec<_>>()
        }),
    }
}
