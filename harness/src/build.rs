//! In-memory module sets through source collection, ordering and module building.
use llrl::ast;
use llrl::formatting::ContextualDisplay as _;
use llrl::module::{Formatter, ModuleSet};
use llrl::prelude::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub fn loader(case: &Value) -> SourceLoader {
    let mut loader = SourceLoader::new();
    loader.add_package(PackageName::builtin(), ast::builtin::module());
    if case["std"] == json!(true) {
        loader.add_package(PackageName::std(), llstd::modules());
    }
    for (path, src) in case["mods"].as_object().unwrap() {
        let path = path.parse::<Path>().expect("module path");
        loader.add_source(path, src.as_str().unwrap().to_string());
    }
    loader
}

pub fn variant(e: &impl std::fmt::Debug) -> String {
    let s = format!("{:?}", e);
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

pub fn paths(case: &Value, key: &str) -> Vec<Path> {
    match case[key].as_array() {
        Some(a) => a.iter().map(|p| p.as_str().unwrap().parse().unwrap()).collect(),
        None => vec![Path::current()],
    }
}

/// case: {mods:{path:src}, entries:[path], std:bool, types:bool, kinds:bool}
pub fn run(case: &Value) -> Value {
    let loader = loader(case);
    let entries = paths(case, "entries");
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let sources = collect_sources(
        entries.iter(),
        &loader,
        &mut table,
        &Preprocessor::new(),
        &mut report,
    );
    let errors: Vec<Value> = sources
        .errors()
        .map(|(p, e)| json!({"path": p.to_string(), "err": variant(e), "msg": e.fmt_on(&table).to_string()}))
        .collect();
    if !errors.is_empty() {
        return json!({ "stage": "source", "errors": errors });
    }
    let sources = match sources.resolve_dependencies_order() {
        Ok(s) => s,
        Err(ps) => {
            return json!({"stage":"cycle","paths": ps.iter().map(|p| p.to_string()).collect::<Vec<_>>()})
        }
    };
    let (modules, errors) = build_modules(sources, entries.into_iter().collect(), &(), &mut report);
    let errors: Vec<Value> = errors
        .iter()
        .map(|(s, e)| {
            json!({"path": s.path.to_string(),
                "err": variant(&e.clone().drop_context_info()),
                "msg": e.fmt_on(&table).to_string()})
        })
        .collect();
    let mut res = Map::new();
    res.insert("stage".into(), json!("module"));
    res.insert("errors".into(), Value::Array(errors));
    res.insert(
        "built".into(),
        json!(modules.iter().map(|m| m.path().to_string()).collect::<Vec<_>>()),
    );
    if case["types"] == json!(true) {
        let set: HashMap<_, Arc<Module>> =
            modules.iter().map(|m| (m.id(), Arc::clone(m))).collect();
        let formatter = Formatter::new(&set);
        let mut types = Map::new();
        for m in modules.iter() {
            if m.path().package != PackageName::current() {
                continue;
            }
            for f in m.ast_root().functions.values() {
                let name = set.symbol_of(f.id).map(|s| s.name.clone()).unwrap_or_default();
                let ty = set.type_of(f.id).map(|t| format!("{}", t.fmt_on(&formatter)));
                let sc = set.scheme_of(f.id).map(|t| format!("{}", t.fmt_on(&formatter)));
                types.insert(name, json!({"type": ty, "scheme": sc}));
            }
        }
        res.insert("types".into(), Value::Object(types));
    }
    if case["kinds"] == json!(true) {
        let set: HashMap<_, Arc<Module>> =
            modules.iter().map(|m| (m.id(), Arc::clone(m))).collect();
        let formatter = Formatter::new(&set);
        let mut kinds = Map::new();
        let mut put = |c: ast::Construct| {
            let name = set.symbol_of(c).map(|s| s.name.clone()).unwrap_or_default();
            if let Some(k) = set.kind_of(c) {
                kinds.insert(name, json!(format!("{}", k.fmt_on(&formatter))));
            }
        };
        for m in modules.iter() {
            if m.path().package != PackageName::current() {
                continue;
            }
            let root = m.ast_root();
            root.data_type_cons.keys().for_each(|id| put((*id).into()));
            root.class_cons.keys().for_each(|id| put((*id).into()));
            root.class_methods.keys().for_each(|id| put((*id).into()));
            root.instance_cons.keys().for_each(|id| put((*id).into()));
            root.functions.keys().for_each(|id| put((*id).into()));
        }
        res.insert("kinds".into(), Value::Object(kinds));
    }
    Value::Object(res)
}
