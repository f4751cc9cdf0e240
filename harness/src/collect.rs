//! Source collection and dependency ordering, in memory and from directories.
use crate::build::{paths, variant};
use llrl::ast;
use llrl::prelude::*;
use serde_json::{json, Value};
use std::path::PathBuf;

/// case: {mods:{path:src}, fs:{package:dir}, entries:[path], features:[name]}
pub fn run(case: &Value) -> Value {
    let mut loader = SourceLoader::new();
    if case["builtin"] != json!(false) {
        loader.add_package(PackageName::builtin(), ast::builtin::module());
    }
    if let Some(fs) = case["fs"].as_object() {
        for (name, dir) in fs {
            let name = name.parse::<PackageName>().expect("package name");
            assert!(loader.add_package(name, PathBuf::from(dir.as_str().unwrap())));
        }
    }
    if let Some(mods) = case["mods"].as_object() {
        for (path, src) in mods {
            let path = path.parse::<Path>().expect("module path");
            assert!(loader.add_source(path, src.as_str().unwrap().to_string()));
        }
    }
    let mut pp = Preprocessor::new();
    if let Some(fs) = case["features"].as_array() {
        for f in fs {
            pp.enable_feature(f.as_str().unwrap());
        }
    }
    let entries = paths(case, "entries");
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let set = collect_sources(entries.iter(), &loader, &mut table, &pp, &mut report);
    let sources: Vec<Value> = set
        .sources()
        .map(|s| {
            let mut deps: Vec<_> = s.dependencies.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            deps.sort();
            json!({"path": s.path.to_string(), "std": s.implicit_std, "deps": deps,
                "errors": s.errors.iter().map(variant).collect::<Vec<_>>()})
        })
        .collect();
    let mut res = json!({ "sources": sources });
    match set.resolve_dependencies_order() {
        Ok(o) => res["order"] = o.iter().map(|s| s.path.to_string()).collect(),
        Err(ps) => res["cycle"] = ps.iter().map(|p| p.to_string()).collect(),
    }
    res
}
