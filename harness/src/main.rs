//! Driver that executes model-generated cases against the real llrl crates.
//! `vharness CMD < in.jsonl > out.jsonl`: one JSON case per line, one JSON result per line.
mod build;
mod collect;
mod link;
mod pat;
mod pbuild;
mod reader;
mod unify;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic;

pub fn guarded(f: impl FnOnce() -> Value) -> Value {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".to_string());
            json!({ "panic": msg })
        }
    }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).expect("command");
    let f: fn(&Value) -> Value = match cmd.as_str() {
        "pat" => pat::run,
        "jit" => link::jit,
        "elf" => link::elf,
        "build" => build::run,
        "collect" => collect::run,
        "pbuild" => pbuild::run,
        "pre" => reader::pre,
        "read" => reader::read,
        "unify" => unify::run,
        _ => panic!("unknown command {}", cmd),
    };
    // deep recursion in the code under test must not kill the driver on small stacks
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        let mut out = std::io::BufWriter::new(stdout.lock());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.trim().is_empty() {
                continue;
            }
            let case: Value = serde_json::from_str(&line).expect("json");
            let mut res = guarded(|| f(&case));
            if let (Some(o), Some(id)) = (res.as_object_mut(), case.get("id")) {
                o.insert("id".to_string(), id.clone());
            }
            writeln!(out, "{}", res).unwrap();
            out.flush().unwrap();
        }
    });
    t.unwrap().join().unwrap();
}
