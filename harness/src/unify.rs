//! Histories of operations on the unification contexts of types and kinds.
use llrl::ast::{self, Ast, KindBuilder as _, ModuleId, NodeId, TypeBuilder as _};
use llrl::unification::{kind as uk, types as ut, Level};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;

const CONS: [&str; 7] = ["Int", "Bool", "List", "Pair", "Fix", "Cur", "Fn"];

fn fun(args: usize, ret: ast::Kind) -> ast::Kind {
    ast::Kind::fun(vec![ast::Kind::Type; args], ret)
}

#[derive(Clone)]
struct Env;

impl ut::KindEnvironment for Env {
    fn resolve_kind(&self, construct: impl Into<ast::Construct>) -> Cow<'_, ast::Kind> {
        let t = ast::Kind::Type;
        Cow::Owned(match construct.into() {
            ast::Construct::DataTypeCon(id) => match CONS[id.index_in_module() as usize] {
                "Int" | "Bool" => t,
                "List" => fun(1, t),
                "Pair" => fun(2, t),
                "Fix" => ast::Kind::fun(vec![fun(1, t.clone())], t),
                "Cur" => fun(1, fun(1, t)),
                _ => fun(3, t),
            },
            ast::Construct::TypeParameter(id) if id.index_in_module() == 3 => fun(1, t),
            ast::Construct::TypeParameter(_) => t,
            c => panic!("unknown construct {}", c),
        })
    }
}

fn node<T>(n: usize) -> NodeId<T> {
    NodeId::new_unchecked(ModuleId::from_index(7), n as u32)
}

const BOTTOM: u64 = 9;

fn level(n: u64) -> Level {
    if n == BOTTOM {
        Level::bottom()
    } else {
        (0..n).fold(Level::top(), |l, _| l.down())
    }
}

fn unlevel(l: Level) -> u64 {
    if l == Level::bottom() { BOTTOM } else { l.depth() as u64 }
}

fn kind(v: &Value) -> ast::Kind {
    match v["k"].as_str().unwrap() {
        "c" => ast::Kind::Type,
        _ => {
            let mut l = v["l"].as_array().unwrap().iter().map(kind).collect::<Vec<_>>();
            let r = l.pop().unwrap();
            ast::Kind::fun(l, r)
        }
    }
}

fn unkind(k: &ast::Kind) -> Value {
    match k {
        ast::Kind::Type => json!({"k":"c","n":"t"}),
        ast::Kind::Constraint => json!({"k":"c","n":"constraint"}),
        ast::Kind::Satisfaction => json!({"k":"c","n":"satisfaction"}),
        ast::Kind::Value => json!({"k":"c","n":"value"}),
        ast::Kind::Macro => json!({"k":"c","n":"macro"}),
        ast::Kind::Fun(args, ret) => {
            let mut l = args.iter().map(unkind).collect::<Vec<_>>();
            l.push(unkind(ret));
            json!({"k":"a","f":{"k":"c","n":"->"},"l":l})
        }
        _ => json!({"k":"?"}),
    }
}

struct Types {
    ctx: ut::Context<Env>,
    vars: Vec<ut::Type>,
    slots: Vec<ut::Type>,
}

impl Types {
    fn name(&mut self, var: ut::Var) -> u64 {
        use ut::Resolve as _;
        let vars = self.vars.clone();
        for (i, v) in vars.into_iter().enumerate() {
            if matches!(self.ctx.resolve(v), ut::Type::Var(w, _, _) if w == var) {
                return i as u64 + 1;
            }
        }
        panic!("a variable from nowhere")
    }

    fn show(&mut self, t: ut::Type) -> Value {
        use ut::Resolve as _;
        match self.ctx.resolve(t) {
            ut::Type::Var(v, _, l) => json!({"k":"v","v":self.name(v),"lv":unlevel(l)}),
            ut::Type::Con(ast::TypeCon::Data(id)) => json!({"k":"c","n":CONS[id.index_in_module() as usize]}),
            ut::Type::Con(_) => json!({"k":"?"}),
            ut::Type::Gen(g, _) => json!({"k":"g","g":g.index_in_module()}),
            ut::Type::App(f, l) => {
                let f = self.ctx.resolve(f);
                let f = self.show(f);
                let l = l.iter().collect::<Vec<_>>();
                let l = l.into_iter().map(|v| {
                    let t = self.ctx.resolve(v);
                    self.show(t)
                }).collect::<Vec<_>>();
                json!({"k":"a","f":f,"l":l})
            }
        }
    }

    fn dump(&mut self) -> Value {
        let slots = self.slots.clone();
        slots.into_iter().map(|t| self.show(t)).collect()
    }
}

fn ix(o: &Value, k: &str) -> usize {
    o[k].as_u64().unwrap() as usize - 1
}

/// case: {glv, ops} -> {out}
pub fn types(case: &Value) -> Value {
    let glv = case["glv"].as_array().unwrap().iter().map(|l| level(l.as_u64().unwrap())).collect::<Vec<_>>();
    let mut c = Types { ctx: ut::Context::new(Env), vars: vec![], slots: vec![] };
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let ok = json!({"ok":true});
        let map = |c: &Types| -> HashMap<ut::Gen, ut::Type> {
            o["m"].as_array().unwrap().iter().map(|p| (node(p[0].as_u64().unwrap() as usize), c.slots[p[1].as_u64().unwrap() as usize - 1])).collect()
        };
        let state = |c: &mut Types, f: &mut dyn FnMut(&mut ut::Context<Env>) -> bool| {
            let before = c.ctx.clone();
            if f(&mut c.ctx) {
                json!({"ok":true,"d":c.dump()})
            } else {
                c.ctx = before;
                json!({"ok":false})
            }
        };
        let r = match o["o"].as_str().unwrap() {
            "var" => {
                let k = c.ctx.kind_table.intern(&kind(&o["kd"]));
                let t = c.ctx.new_var(k, level(o["lv"].as_u64().unwrap()));
                c.vars.push(t);
                c.slots.push(t);
                ok
            }
            "con" => {
                let i = CONS.iter().position(|n| *n == o["n"].as_str().unwrap()).unwrap();
                c.slots.push(ut::Type::Con(ast::TypeCon::Data(node(i))));
                ok
            }
            "gen" => {
                let g = o["n"].as_u64().unwrap() as usize;
                c.slots.push(ut::Type::Gen(node(g), glv[g - 1]));
                ok
            }
            "app" => {
                let l = o["l"].as_array().unwrap().iter().map(|n| c.slots[n.as_u64().unwrap() as usize - 1]).collect();
                let f = c.slots[ix(o, "f")];
                let t = c.ctx.new_app(f, l);
                c.slots.push(t);
                ok
            }
            "subst" => {
                let m = map(&c);
                let t = c.slots[ix(o, "a")];
                let t = c.ctx.subst(&m, t);
                c.slots.push(t);
                ok
            }
            "unify" => {
                let (a, b) = (c.slots[ix(o, "a")], c.slots[ix(o, "b")]);
                state(&mut c, &mut |x| x.unify(a, b).is_ok())
            }
            "match" => {
                let (a, b) = (c.slots[ix(o, "a")], c.slots[ix(o, "b")]);
                state(&mut c, &mut |x| x.match_to_right(a, b).is_ok())
            }
            "default" => {
                let (a, b) = (c.slots[ix(o, "a")], c.slots[ix(o, "b")]);
                state(&mut c, &mut |x| x.default_vars(a, b).is_ok())
            }
            "equal" => {
                let (a, b) = (c.slots[ix(o, "a")], c.slots[ix(o, "b")]);
                json!({"ok":true,"v":c.ctx.equal(a, b)})
            }
            "eqs" => {
                let m = map(&c);
                let (a, b) = (c.slots[ix(o, "a")], c.slots[ix(o, "b")]);
                json!({"ok":true,"v":c.ctx.equal_on_subst(&m, a, b)})
            }
            "vars" => {
                let t = c.slots[ix(o, "a")];
                let vs = c.ctx.get_vars(t, level(o["lv"].as_u64().unwrap()));
                let mut vs = vs.into_iter().map(|v| c.name(v)).collect::<Vec<_>>();
                vs.sort();
                json!({"ok":true,"v":vs})
            }
            "deep" => {
                let t = c.slots[ix(o, "a")];
                json!({"ok":true,"v":unlevel(c.ctx.compute_deepest_level(t))})
            }
            "kind" => {
                let t = c.slots[ix(o, "a")];
                json!({"ok":true,"v":unkind(c.ctx.get_kind(t))})
            }
            o => panic!("unknown operation {}", o),
        };
        out.push(r);
    }
    json!({"out":out})
}

/// case: {ops} -> {out}
pub fn kinds(case: &Value) -> Value {
    use uk::Resolve as _;
    fn show(c: &mut uk::Context, vars: &[uk::Kind], k: uk::Kind) -> Value {
        let k = c.resolve(k);
        if let uk::Kind::Var(_) = k {
            for (i, v) in vars.iter().enumerate() {
                if c.resolve(*v) == k {
                    return json!({"k":"v","v":i + 1,"lv":0});
                }
            }
            panic!("a variable from nowhere")
        }
        if let uk::Kind::Fun(args, ret) = k {
            let l = args.iter().chain(std::iter::once(ret)).collect::<Vec<_>>();
            let l = l.into_iter().map(|v| {
                let k = c.resolve(v);
                show(c, vars, k)
            }).collect::<Vec<_>>();
            return json!({"k":"a","f":{"k":"c","n":"->"},"l":l});
        }
        unkind(&c.export(k, &mut Ast))
    }
    let mut c = uk::Context::new();
    let (mut vars, mut slots): (Vec<uk::Kind>, Vec<uk::Kind>) = (vec![], vec![]);
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let mut r = json!({"ok":true});
        match o["o"].as_str().unwrap() {
            "var" => {
                let k = c.new_var();
                vars.push(k);
                slots.push(k);
            }
            "con" => slots.push(match o["n"].as_str().unwrap() {
                "t" => uk::Kind::Type,
                "constraint" => uk::Kind::Constraint,
                "satisfaction" => uk::Kind::Satisfaction,
                "value" => uk::Kind::Value,
                _ => uk::Kind::Macro,
            }),
            "fun" => {
                let l = o["l"].as_array().unwrap().iter().map(|n| slots[n.as_u64().unwrap() as usize - 1]).collect();
                let k = c.new_fun(l, slots[ix(o, "f")]);
                slots.push(k);
            }
            s => {
                let (a, b) = (slots[ix(o, "a")], slots[ix(o, "b")]);
                let before = c.clone();
                let ok = if s == "unify" { c.unify(a, b).is_ok() } else { c.default_vars(a, b).is_ok() };
                if ok {
                    let d = slots.clone().into_iter().map(|k| show(&mut c, &vars, k)).collect::<Vec<_>>();
                    r = json!({"ok":true,"d":d});
                } else {
                    c = before;
                    r = json!({"ok":false});
                }
            }
        }
        out.push(r);
    }
    json!({"out":out})
}

/// case: {kinds, ..}
pub fn run(case: &Value) -> Value {
    if case["kinds"].as_bool().unwrap() { kinds(case) } else { types(case) }
}
