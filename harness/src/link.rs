//! Objects assembled with xten, loaded into the JIT engine or written as ELF files.
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::path::Path;
use xten::asm::*;
use xten::elf::write_relocatable_object;
use xten::jit::{Engine, Error};

extern "C" fn far0() -> i64 {
    1001
}
extern "C" fn far1() -> i64 {
    1002
}

fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}

enum Refused {
    Range,
    Other(String),
}

fn object(o: &Value) -> Result<Object, Refused> {
    let mut w = Writer::new();
    let labels: Vec<Label> = o["labels"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| match n.as_str().unwrap() {
            "" => w.issue_label(),
            n => w.get_label(n),
        })
        .collect();
    for i in o["items"].as_array().unwrap() {
        item(&mut w, &labels, i).map_err(|e| Refused::Other(e.to_string()))?;
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.produce())) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(Refused::Other(e.to_string())),
        Err(e) => match e.downcast_ref::<String>() {
            Some(s) if s.contains("Cannot encode") => Err(Refused::Range),
            Some(s) => Err(Refused::Other(s.clone())),
            _ => Err(Refused::Other("?".into())),
        },
    }
}

fn item(w: &mut Writer, labels: &[Label], i: &Value) -> std::io::Result<()> {
    let (l, g, pad) = (labels[int(i, "l") as usize - 1], i["g"].as_bool().unwrap(), int(i, "pad") as u64);
    macro_rules! words {
        ($s:ident) => {{
            w.$s().allocate(pad)?;
            w.$s().align(int(i, "al").max(1) as u64)?;
            w.$s().define(l, g);
            for x in i["words"].as_array().unwrap() {
                match int(x, "l") {
                    0 => w.$s().write_all(&int(x, "n").to_le_bytes())?,
                    t => {
                        w.$s().write_all(&[0x5a; 8])?;
                        w.$s().use_relative(-8, labels[t as usize - 1], 8 * int(x, "w"), RelocType::Abs64);
                    }
                }
            }
        }};
    }
    match i["sec"].as_str().unwrap() {
        "data" => words!(data),
        "rodata" => words!(rodata),
        "bss" => {
            w.bss().allocate(pad)?;
            w.bss().define(l, g);
            w.bss().allocate(8 * i["words"].as_array().unwrap().len() as u64)?;
        }
        _ => {
            w.text().allocate(pad)?;
            w.define(l, g);
            w.pushq(Rbx)?;
            w.movq(Rbx, 0i32)?;
            let mut open = true;
            for o in i["ops"].as_array().unwrap() {
                open = op(w, labels, o)?;
            }
            if open {
                w.movq(Rax, Rbx)?;
                w.popq(Rbx)?;
                w.retq()?;
            }
        }
    }
    Ok(())
}

fn op(w: &mut Writer, labels: &[Label], o: &Value) -> std::io::Result<bool> {
    let at = int(o, "l") as usize;
    let l = if at == 0 { None } else { Some(labels[at - 1]) };
    let l = move || l.unwrap();
    let n = int(o, "n") as i32;
    let off = 8 * int(o, "w") as i32;
    let mut sum = true;
    match o["o"].as_str().unwrap() {
        "const" => w.movq(Rax, n)?,
        "loop" => {
            w.movq(Rax, 0i32)?;
            w.movl(Ecx, n)?;
            let top = w.issue_label();
            w.define(top, false);
            w.addq(Rax, 1i32)?;
            w.subl(Ecx, 1i8)?;
            match int(o, "w") {
                0 => w.jne(Short(top))?,
                _ => w.jne(top)?,
            }
        }
        "skip" => {
            let end = w.issue_label();
            w.movq(Rax, 0i32)?;
            match int(o, "w") {
                0 => w.jmpq(end)?,
                1 if n < 100 => w.jmpq(Short(end))?,
                x => {
                    w.cmpq(Rbx, Rbx)?;
                    match x {
                        2 => w.je(end)?,
                        3 if n < 100 => w.jae(Short(end))?,
                        _ => w.jle(end)?,
                    }
                }
            }
            w.movq(Rax, 7777i32)?;
            w.text().allocate(n as u64)?;
            w.define(end, false);
        }
        "call" => w.callq(l())?,
        "callat" => w.callq(AddressTable(l()))?,
        "callreg" => {
            w.leaq(Rcx, l())?;
            w.callq(Rcx)?;
        }
        "callregat" => {
            w.movq(Rcx, AddressTable(l()))?;
            w.callq(Rcx)?;
        }
        "callw" => {
            w.leaq(Rcx, l())?;
            w.callq(memory(Rcx + off))?;
        }
        "callwat" => {
            w.movq(Rcx, AddressTable(l()))?;
            w.movq(Rcx, memory(Rcx + off))?;
            w.callq(Rcx)?;
        }
        "mod" => {
            w.leaq(Rax, l())?;
            w.andq(Rax, 15i8)?;
        }
        "load" => w.movq(Rax, l())?,
        "loadx" => {
            w.movq(Xmm0, l())?;
            w.movq(Rax, Xmm0)?;
        }
        "loadlea" => {
            w.leaq(Rcx, l())?;
            w.movq(Rax, memory(Rcx + off))?;
        }
        "loadadd" => {
            w.movq(Rax, memory(Rip + 0i32))?;
            w.use_relative(-4, l(), -4 + off as i64, RelocType::PcRel32);
        }
        "loadat" => {
            w.movq(Rcx, AddressTable(l()))?;
            w.movq(Rax, memory(Rcx + off))?;
        }
        "loadw" => {
            w.leaq(Rcx, l())?;
            w.movq(Rcx, memory(Rcx + off))?;
            w.movq(Rax, memory(Rcx))?;
        }
        "store" => {
            w.movq(l(), n)?;
            sum = false;
        }
        "storer" => {
            w.movq(Rax, n)?;
            w.movq(l(), Rax)?;
            sum = false;
        }
        "storex" => {
            w.movq(Rax, n)?;
            w.movq(Xmm1, Rax)?;
            w.movq(l(), Xmm1)?;
            sum = false;
        }
        "storelea" => {
            w.leaq(Rcx, l())?;
            w.movq(memory(Rcx + off), n)?;
            sum = false;
        }
        "storeat" => {
            w.movq(Rcx, AddressTable(l()))?;
            w.movq(memory(Rcx + off), n)?;
            sum = false;
        }
        t => {
            w.popq(Rbx)?;
            match t {
                "tail" => w.jmpq(l())?,
                "tailat" => w.jmpq(AddressTable(l()))?,
                "tailif" => {
                    w.cmpq(Rax, Rax)?;
                    w.je(l())?;
                    w.movq(Rax, 7777i32)?;
                    w.retq()?;
                }
                "tailshort" => w.jmpq(Short(l()))?,
                _ => panic!("op {}", t),
            }
            return Ok(false);
        }
    }
    if sum {
        w.addq(Rbx, Rax)?;
    }
    Ok(true)
}

fn outcome(r: Result<(), Error>) -> Value {
    let a = |r: &str, s: String| json!({"r": r, "s": s, "v": 0});
    match r {
        Ok(()) => a("ok", String::new()),
        Err(Error::UndefinedSymbol(s)) => a("undefined", s),
        Err(Error::DuplicateSymbol(s)) => a("duplicate", s),
        Err(Error::OffsetOutOfRange(..)) => a("range", String::new()),
        Err(Error::UnsupportedSectionRelocation(_)) => a("section", String::new()),
        Err(e) => a("error", e.to_string()),
    }
}

pub fn jit(case: &Value) -> Value {
    // what lies outside: code and data in the program, and code and data of another engine
    let fardata: &'static mut [i64; 3] = Box::leak(Box::new([2001, 2002, 2003]));
    let mut other = Engine::new(|_: &str| std::ptr::null());
    {
        let mut w = Writer::new();
        for (name, n) in [("f2", 1003i32), ("f3", 1004)] {
            let l = w.get_label(name);
            w.define(l, true);
            w.movq(Rax, n).unwrap();
            w.retq().unwrap();
        }
        let l = w.get_label("d1");
        w.data().define(l, true);
        for n in [2011i64, 2012, 2013] {
            w.data().write_all(&n.to_le_bytes()).unwrap();
        }
        other.add_object(&w.produce().unwrap()).unwrap();
    }
    let ext = [
        far0 as *const u8,
        far1 as *const u8,
        other.get("f2").unwrap(),
        other.get("f3").unwrap(),
        fardata.as_ptr() as *const u8,
        other.get("d1").unwrap(),
    ];
    let res: HashMap<String, i64> = case["res"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect();
    let mut engine = Engine::new(move |s: &str| match res.get(s) {
        Some(&k) => ext[k as usize - 1],
        None => std::ptr::null(),
    });
    let mut out = Vec::new();
    let value = |v: i64| json!({"r": "v", "s": "", "v": v});
    let none = || json!({"r": "none", "s": "", "v": 0});
    for s in case["steps"].as_array().unwrap() {
        let name = s["name"].as_str().unwrap_or("");
        let word = |p: *const u8| unsafe { (p as *mut i64).wrapping_add(int(s, "w") as usize) };
        out.push(match s["o"].as_str().unwrap() {
            "reg" => outcome(engine.register(name, ext[int(s, "ext") as usize - 1])),
            "call" => match engine.get(name) {
                Some(p) => value(unsafe { std::mem::transmute::<_, extern "C" fn() -> i64>(p) }()),
                None => none(),
            },
            "peek" => match engine.get(name) {
                Some(p) => value(unsafe { word(p).read_unaligned() }),
                None => none(),
            },
            "poke" => match engine.get(name) {
                Some(p) => {
                    unsafe { word(p).write_unaligned(int(s, "n")) };
                    outcome(Ok(()))
                }
                None => none(),
            },
            _ => {
                let r = match object(&s["objs"][0]) {
                    Ok(o) => outcome(engine.add_object(&o)),
                    Err(Refused::Range) => json!({"r": "range", "s": "", "v": 0}),
                    Err(Refused::Other(e)) => json!({"r": "error", "s": e, "v": 0}),
                };
                let ok = r["r"] == "ok";
                out.push(r);
                if !ok {
                    break;
                }
                continue;
            }
        });
    }
    json!({ "out": out })
}

/// Writes the objects of the case as ELF files.
pub fn elf(case: &Value) -> Value {
    let dir = Path::new(case["dir"].as_str().unwrap());
    for (n, o) in case["objs"].as_array().unwrap().iter().enumerate() {
        match object(o) {
            Ok(o) => write_relocatable_object(&dir.join(format!("o{}.o", n)), o).unwrap(),
            Err(Refused::Range) => return json!({"r": "range", "s": "", "v": 0}),
            Err(Refused::Other(e)) => return json!({"r": "error", "s": e, "v": 0}),
        }
    }
    json!({"r": "ok", "s": "", "v": 0})
}
