"""P18: derived instances against Values.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

INTS = {"I8": (-128, 127), "U8": (0, 255), "I16": (-32768, 32767), "U16": (0, 65535), "I32": (-2**31, 2**31 - 1),
        "U32": (0, 2**32 - 1), "I64": (-2**63, 2**63 - 1), "U64": (0, 2**64 - 1)}
CHARS = [9, 10, 13, 32, 34, 92, 97, 98, 0x7F, 0xE9, 0x3042, 0x1F600]
PRELUDE = '''
(import "std/vector" _)
(import "std/array" _)
(import "std/ordering" _)
(import "std/box" _)
(import "std/ref" _)
(import "std/option" _)
(import "std/default" _)
(import "std/copy" _)
(import "std/debug" _)
(import "std/hash" _)
(import "std/derive" _)
(value-data Rec (rec (Vector U8)))
(instance Hasher.Rec (Hasher Rec)
  (function (hasher/reset! s) (with1 (rec (let v)) s (vector/clear! v)))
  (function (hasher/write! bytes s) (with1 (rec (let v)) s (vector/append! bytes v)))
  (function (hasher/finish s) s 0))
(function (written a) {(forall A) (-> A (Vector U8)) (where (Hash A))}
  (let ([v (annotate (vector) (Vector U8))]) (hash! (rec v) a) v))
(function (b x) {(-> Bool String)} (if x "1" "0"))
(function (cmp x y) {(forall A) (-> A A unit) (where (Eq A) (Ord A))}
  (ignore (println! "@ " (b (eq? x y)) " " (b (ne? x y)) " "
    (match (compare x y) [ordering:less "-1"] [ordering:equal "0"] [ordering:greater "1"]) " "
    (b (lt? x y)) " " (b (le? x y)) " " (b (gt? x y)) " " (b (ge? x y)))))
'''


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.decls, self.types, self.heap = [], [], []
        self.nums = set()

    def lit_char(self, c):
        return {9: "#\\\\t", 10: "#\\\\n", 13: "#\\\\r", 92: "#\\\\\\"}.get(c) or "#\\" + chr(c)

    def lit_str(self, cs):
        return '"' + "".join({9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 92: "\\\\"}.get(c) or chr(c) for c in cs) + '"'

    # ------------------------------------------------------------ types
    def ty(self, depth, params=(), selfref=None):
        rng = self.rng
        k = rng.choice(["int"] * 3 + ["bool", "char", "str", "option", "box", "ref", "array", "vector", "tuple"] +
                       ["data"] * (2 if self.types else 0) + ["param"] * (3 if params else 0) + (["self"] * 2 if selfref else []))
        if depth == 0 and k in ("option", "box", "ref", "array", "vector", "tuple", "data"):
            k = "int"
        if k == "int":
            return ("int", rng.choice(list(INTS)))
        if k in ("option", "box", "ref", "array", "vector"):
            return (k, self.ty(depth - 1, params, selfref))
        if k == "tuple":
            return (k,) + tuple(self.ty(depth - 1, params, selfref) for _ in range(rng.choice([2, 3])))
        if k == "data":
            j = rng.randrange(len(self.types))
            return (k, j, tuple(self.ty(depth - 1 if depth > 1 else 0, params) for _ in self.types[j]["params"]))
        if k == "param":
            return (k, rng.choice(params))
        return (k,)

    def show_ty(self, t):
        k = t[0]
        if k == "int":
            return t[1]
        if k in ("bool", "char", "str"):
            return {"bool": "Bool", "char": "Char", "str": "String"}[k]
        if k == "tuple":
            return "(: " + " ".join(map(self.show_ty, t[1:])) + ")"
        if k == "data":
            n = self.types[t[1]]["name"]
            return n if not t[2] else f"({n} {' '.join(map(self.show_ty, t[2]))})"
        if k == "param":
            return t[1]
        if k == "self":
            return self.self_name
        return f"({k.capitalize()} {self.show_ty(t[1])})"

    def subst(self, t, env, selft):
        k = t[0]
        if k == "param":
            return env[t[1]]
        if k == "self":
            return selft
        if k == "tuple":
            return (k,) + tuple(self.subst(x, env, selft) for x in t[1:])
        if k == "data":
            return (k, t[1], tuple(self.subst(x, env, selft) for x in t[2]))
        if k in ("option", "box", "ref", "array", "vector"):
            return (k, self.subst(t[1], env, selft))
        return t

    def declare(self):
        rng = self.rng
        n = len(self.types)
        name = f"T{n}"
        params = ["A", "B"][:rng.choice([0, 0, 0, 1, 2])]
        boxed = rng.random() < 0.5
        self.self_name = name if not params else f"({name} {' '.join(params)})"
        cons = []
        for j in range(rng.choice([1, 1, 2, 2, 3, 5])):
            rec = boxed and j > 0 and rng.random() < 0.7
            fs = [(rng.choice(['vector', 'vector', 'ref']), ('int', 'I32')) if rng.random() < 0.2 else self.ty(rng.choice([0, 1, 2]), params, rec) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
            cons.append((f"{rng.choice('cdxyz')}{n}/{j}", fs))
        for p in params:                                 # every parameter is used
            cons[-1][1].append(("param", p))
        head = self.self_name
        body = " ".join(c if not fs else f"({c} {' '.join(map(self.show_ty, fs))})" for c, fs in cons)
        kind = "data" if boxed else rng.choice(["value-data", "value-data", "c-data"]) if len(cons) == 1 and cons[0][1] else "value-data"
        self.types.append({"name": name, "params": params, "cons": cons})
        self.decls.append(f"(derive (Eq Ord Hash DeepCopy DebugDisplay Default) {kind} {head} {body})")

    # ----------------------------------------------------------- values
    def cons_of(self, t):
        d = self.types[t[1]]
        env = dict(zip(d["params"], t[2]))
        return [(c, [self.subst(f, env, t) for f in fs]) for c, fs in d["cons"]]

    def term(self, t, size, near=None):
        """(term, source)"""
        rng = self.rng
        k = t[0]
        if k == "int":
            lo, hi = INTS[t[1]]
            v = rng.choice([lo, hi, hi // 2 + 1, 0, 1, 2, 3, rng.randint(lo, hi)])
            self.nums.add(v)
            return {"t": "int", "r": v, "d": list(str(v).encode())}, f"{{{v} {t[1]}}}" if False else f"(annotate {v} {t[1]})"
        if k == "bool":
            v = rng.randrange(2)
            return {"t": "bool", "b": v}, "#t" if v else "#f"
        if k == "char":
            v = rng.choice(CHARS)
            return {"t": "char", "c": v}, self.lit_char(v)
        if k == "str":
            v = [rng.choice(CHARS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            return {"t": "str", "s": v}, self.lit_str(v)
        if k == "option":
            if size <= 0 or rng.random() < 0.4:
                return con("none", 1, 2, []), "none"
            x, s = self.term(t[1], size - 1)
            return con("some", 2, 2, [x]), f"(some {s})"
        if k == "box":
            x, s = self.term(t[1], size - 1)
            return {"t": "box", "e": x}, f"(box {s})"
        if k in ("ref", "array", "vector"):
            xs = [self.term(t[1], size - 1) for _ in range(1 if k == "ref" else 0 if size <= 0 else rng.choice([0, 1, 2, 3]))]
            self.heap.append({"k": k, "es": [x for x, _ in xs]})
            o = len(self.heap)
            return {"t": "obj", "o": o}, f"(annotate ({k} {' '.join(s for _, s in xs)}) {self.show_ty(t)})"
        if k == "tuple":
            xs = [self.term(x, size - 1) for x in t[1:]]
            return con(":", 1, 1, [x for x, _ in xs]), f"(: {' '.join(s for _, s in xs)})"
        cs = self.cons_of(t)
        j = 0 if size <= 0 else rng.randrange(len(cs))
        c, fs = cs[j]
        xs = [self.term(f, size - 1) for f in fs]
        src = c if not xs else f"({c} {' '.join(s for _, s in xs)})"
        return con(c, j + 1, len(cs), [x for x, _ in xs]), src if size < 3 else f"(annotate {src} {self.show_ty(t)})"

    def spec_ty(self, t, table):
        k = t[0]
        if k == "data":
            if t not in table:
                table[t] = None
                cs = self.cons_of(t)
                table[t] = {"n": list(cs[0][0].encode()), "m": len(cs), "fs": [self.spec_ty(f, table) for f in cs[0][1]]}
            return {"k": "data", "d": list(table).index(t) + 1}
        if k == "tuple":
            return {"k": "tuple", "es": [self.spec_ty(x, table) for x in t[1:]]}
        if k in ("option", "box", "ref", "array", "vector"):
            return {"k": k, "e": self.spec_ty(t[1], table)}
        return {"k": k}


def con(n, i, m, fs):
    return {"t": "con", "n": list(n.encode()), "i": i, "m": m, "fs": fs}


def default_ok(g, t, seen=()):
    """the default of t is finite (derived defaults take the first constructor)"""
    k = t[0]
    if k == "data":
        if t in seen:
            return False
        return all(default_ok(g, f, seen + (t,)) for f in g.cons_of(t)[0][1])
    if k == "tuple":
        return all(default_ok(g, x, seen) for x in t[1:])
    if k in ("box", "ref"):
        return default_ok(g, t[1], seen)
    return True


def program(rng, pid):
    g = Gen(rng)
    for _ in range(rng.choice([1, 2, 3])):
        g.declare()
    j = len(g.types) - 1
    t = ("data", j, tuple(g.ty(rng.choice([0, 1])) for _ in g.types[j]["params"]))
    cs = g.cons_of(t)
    vals, srcs = [], []
    n0 = rng.choice([3, 4, 5])
    for _ in range(n0):
        v, s = g.term(t, 3)
        vals.append(v)
        srcs.append(s)
    if rng.random() < 0.7:                               # an equal value of its own
        st = rng.getstate()
        h = len(g.heap)
        v, s = g.term(t, 3)
        rng.setstate(st)
        v2, s2 = g.term(t, 3)
        vals += [v, v2]
        srcs += [s, s2]
    T = g.show_ty(t)
    lines, script = [], []
    n = len(vals)
    shape = [v["i"] for v in vals]

    def pairs(ids):
        for a in ids:
            for b in ids:
                script.append({"op": "cmp", "i": a, "j": b})
                lines.append(f"  (cmp (get vs[{a}]) (get vs[{b}]))")
                if a < b:
                    script.append({"op": "hash", "i": a, "j": b})
                    lines.append(f'  (ignore (println! "@ " (b (eq? (written (get vs[{a}])) (written (get vs[{b}]))))))')

    def show(i):
        script.append({"op": "show", "i": i})
        lines.append(f'  (ignore (println! "@ " (debug (get vs[{i}]))))')

    def add(op, expr, **kw):
        nonlocal n
        script.append({"op": op, **kw})
        lines.append(f"  (vector/push! {expr} vs)\n  (ignore (println! \"@\"))")
        n += 1

    for i in range(n):
        show(i)
    pairs(range(n))
    first = n
    for i in range(min(n, 4)):
        add("copy", f"(deep-copy (get vs[{i}]))", i=i)
        shape.append(shape[i])
        if rng.random() < 0.5:
            add("alias", f"(get vs[{i}])", i=i)
            shape.append(shape[i])
    table = {}
    if default_ok(g, t):
        add("default", f"(annotate default {T})", ty=g.spec_ty(t, table))
        shape.append(1)
    for i in range(first, n):
        show(i)
    pairs(range(first - 1, n))
    # changes of the mutable parts
    for i in rng.sample(range(n), min(n, 6)):
        c, fs = cs[shape[i] - 1]
        for f, ft in enumerate(fs):
            if ft[0] in ("vector", "ref") and rng.random() < 0.8:
                x, s = g.term(ft[1], 1)
                if has_obj(x):
                    continue
                pat = f"({c} {' '.join('(let x)' if q == f else '_' for q in range(len(fs)))})"
                script.append({"op": "push" if ft[0] == "vector" else "set", "i": i, "f": f, "x": x})
                act = f"(vector/push! {s} x)" if ft[0] == "vector" else f"(set! x {s})"
                lines.append(f"  (match (get vs[{i}]) [{pat} {act}] [_ unit])\n  (ignore (println! \"@\"))" if len(cs) > 1 else
                             f"  (with1 {pat} (get vs[{i}]) {act})\n  (ignore (println! \"@\"))")
                for q in range(n):
                    show(q)
    src = PRELUDE + "\n".join(g.decls) + f"\n(function (run) {{(-> unit)}}\n  @let ([vs (annotate (vector) (Vector {T}))])\n" + \
        "".join(f"  (vector/push! {s} vs)\n" for s in srcs) + "\n".join(lines) + ")\n(run)\n"
    ranks = sorted(g.nums | {0})
    z = ranks.index(0)

    def rank(x):
        if isinstance(x, dict):
            if x.get("t") == "int":
                return {**x, "r": ranks.index(x["r"]) - z}
            return {k: rank(v) for k, v in x.items()}
        if isinstance(x, list):
            return [rank(v) for v in x]
        return x

    rec = {"id": pid, "types": list(table.values()), "vals": rank(vals), "heap": rank(g.heap), "script": rank(script)}
    return src, rec


def has_obj(x):
    if isinstance(x, dict):
        return x.get("t") == "obj" or any(has_obj(v) for v in x.values())
    return isinstance(x, list) and any(has_obj(v) for v in x)


def answers(out, n):
    """the outputs of the script steps: each starts with @ on a line of its own (shown text may contain newlines)"""
    parts = out.split(b"\n@")
    return parts


CONFIGS = [("chibi", False), ("chibi", False), ("chibi", False), ("llvm", False), ("llvm", True)]


def scripts(c, rounds, count, configs=CONFIGS):
    for rnd in range(rounds):
        progs = [program(c.rng, n) for n in range(count)]

        def go(arg):
            n, (src, rec) = arg
            backend, opt = configs[n % len(configs)]
            r = run_llrl({"main": src}, "main", backend=backend, opt=opt, work=c.work, timeout=200)
            return n, f"{backend}{' -O' if opt else ''}", r

        recs, case = [], {}
        for n, cfg, r in pmap(go, list(enumerate(progs))):
            src, rec = progs[n]
            info = {"source": src, "config": cfg}
            if r["stage"] == "compile":
                c.violation(f"on {cfg}: derived instances do not compile: {str(r['msg'])[-600:]}", info)
                continue
            if r["rc"] != 0:
                c.violation(f"on {cfg}: the program ends with {r['rc']}: {r['msg'][-300:]}", info)
                continue
            raw = r["out"].encode("utf-8", "surrogateescape")
            if raw.endswith(b"\n"):
                raw = raw[:-1]
            lines = (b"\n" + raw).split(b"\n@")[1:]
            outs = []
            for s, l in zip(rec["script"], lines):
                l = l[1:]
                outs.append(list(l) if s["op"] == "show" else [int(x) for x in l.split()] if l else [])
            if len(lines) != len(rec["script"]):
                c.violation(f"on {cfg}: {len(lines)} answers to {len(rec['script'])} steps", info)
                continue
            rec["outs"] = outs
            recs.append(rec)
            case[n] = info
        v = c.tlc_batch("Values", recs)
        for rec in recs:
            n, info = v[rec["id"]]["n"], case[rec["id"]]
            if n < len(rec["script"]):
                s, o = rec["script"][n], rec["outs"][n]
                shown = bytes(o).decode(errors="replace") if s["op"] == "show" else o
                c.violation(f"on {info['config']}: step {n} {s} answers {shown!r:.300}, which the derived structure forbids", {**info, "step": n})
            else:
                c.validated()
                for s in rec["script"]:
                    c.part(f"{s['op']} steps", 1)
                c.sample(f"{info['config']}: {len(rec['script'])} steps over {info['source'].split('(derive ', 1)[1].split(chr(10))[0][:160]}")
        if c.viol:
            break


def check(c):
    c.build(harness=False)
    scripts(c, c.pick(1, 30), c.pick(80, 200))


if __name__ == "__main__":
    main("P18", check)
