//! Parallel module building against a back end that records what it is given and stretches the schedule.
use crate::build::{loader, paths, variant};
use llrl::ast;
use llrl::module::Backend;
use llrl::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Recorder {
    events: Mutex<Vec<Value>>,
    names: Mutex<HashMap<ast::ModuleId, String>>,
    delays: HashMap<String, u64>,
}

impl Recorder {
    fn wait(&self, what: String) {
        match self.delays.get(&what) {
            Some(&ms) if ms > 0 => std::thread::sleep(Duration::from_millis(ms)),
            Some(_) => std::thread::yield_now(),
            None => {}
        }
    }
}

impl Backend for Recorder {
    fn add_module(&self, module: Arc<Module>, is_entry_point: bool) {
        let name = module.path().to_string();
        self.events.lock().unwrap().push(json!(["add", name, is_entry_point]));
        self.wait(format!("add {}", name));
        self.names.lock().unwrap().insert(module.id(), name.clone());
        self.events.lock().unwrap().push(json!(["added", name]));
    }

    fn execute_macro(&self, id: ast::NodeId<ast::Macro>, s: &Sexp) -> Result<Sexp, String> {
        // (touch "module" ok?)
        let args: Vec<String> = match s.rep {
            SexpRep::List(ref l) => l
                .iter()
                .map(|s| match s.rep {
                    SexpRep::String(ref s) => s.to_string(),
                    _ => String::new(),
                })
                .collect(),
            _ => Vec::new(),
        };
        let owner = self.names.lock().unwrap().get(&id.module()).cloned();
        self.events.lock().unwrap().push(json!(["macro", args[1], owner]));
        self.wait(format!("macro {}", args[1]));
        if args[2] == "ok" {
            Ok(Sexp::string(s.loc, "done".to_string()))
        } else {
            Err("no".to_string())
        }
    }
}

/// case: {mods:{path:src}, entries:[path], delays:{"add m"|"macro m": ms}}
pub fn run(case: &Value) -> Value {
    let loader = loader(case);
    let entries = paths(case, "entries");
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let sources = collect_sources(entries.iter(), &loader, &mut table, &Preprocessor::new(), &mut report);
    let errors: Vec<Value> = sources.errors().map(|(p, e)| json!([p.to_string(), variant(e)])).collect();
    if !errors.is_empty() {
        return json!({ "source_errors": errors });
    }
    let sources = match sources.resolve_dependencies_order() {
        Ok(s) => s,
        Err(ps) => return json!({"cycle": ps.iter().map(|p| p.to_string()).collect::<Vec<_>>()}),
    };
    let recorder = Recorder {
        events: Mutex::new(Vec::new()),
        names: Mutex::new(HashMap::new()),
        delays: case["delays"]
            .as_object()
            .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).collect())
            .unwrap_or_default(),
    };
    let (modules, errors) = build_modules(sources, entries.into_iter().collect(), &recorder, &mut report);
    json!({
        "events": recorder.events.into_inner().unwrap(),
        "built": modules.iter().map(|m| m.path().to_string()).collect::<Vec<_>>(),
        "failed": errors
            .iter()
            .map(|(s, e)| json!([s.path.to_string(), variant(&e.clone().drop_context_info())]))
            .collect::<Vec<_>>(),
    })
}
