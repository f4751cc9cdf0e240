"""P07: match exhaustiveness and usefulness.  PatGen enumerates small matches with the model's verdict and
replays them into the checker; PatMatch judges the verdicts given on random larger ones and on whole modules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

W = {"k": "_", "c": "_", "ps": []}


def lit(c): return {"k": "lit", "c": c, "ps": []}
def con(c, ps=()): return {"k": "con", "c": c, "ps": list(ps)}


def to_harness(p):
    if p["k"] == "lit":
        return {"k": "int", "v": int(p["c"])}
    if p["k"] == "con":
        return {"k": "con", "c": p["c"], "ps": [to_harness(q) for q in p["ps"]]}
    return {"k": "_"}


def from_harness(p):
    if p["k"] == "int":
        return lit(str(p["v"]))
    if p["k"] == "con":
        return con(p["c"], [from_harness(q) for q in p["ps"]])
    return W if p["k"] == "_" else lit("?")


def harness_types(types):
    return [[{"c": c["c"], "arity": len(c["args"])} for c in cs] for cs in types.values() if cs]


GEN_TYPES = {
    "Bool": [("F", []), ("T", [])], "Opt": [("None", []), ("Some", ["Bool"])],
    "OptI": [("NoneI", []), ("SomeI", ["Int"])], "Pair": [("P", ["Bool", "Bool"])],
    "Mix": [("A", []), ("B", ["Bool", "Int"]), ("C", ["Bool"])], "OP": [("OP", ["Opt", "Bool"])],
    "RGB": [("R", []), ("G", []), ("Bl", [])], "PR": [("PR", ["RGB", "RGB"])]}


def generated(c):
    types = {t: [{"c": n, "args": a} for n, a in cs] for t, cs in GEN_TYPES.items()}
    plan = c.pick([("Bool", 4), ("Opt", 4), ("OptI", 4), ("Pair", 4), ("Mix", 3), ("OP", 3), ("PR", 3)],
                  [("Bool", 6), ("Opt", 6), ("OptI", 6), ("Pair", 5), ("Mix", 4), ("OP", 4), ("PR", 4), ("RGB", 7)])
    for scen, n in plan:
        r = c.tlc("PatGen", consts={"N": n, "Scen": f'"{scen}"'}, timeout=1500, heap="12g")
        cases = [{"id": i, "types": harness_types(types), "rows": [[to_harness(p) for p in row] for row in x["rows"]]}
                 for i, x in enumerate(r["lines"])]
        got = c.harness("pat", cases)
        for i, x in enumerate(r["lines"]):
            g = got[i]
            c.validated()
            bad = g.get("verdict") != x["verdict"] or \
                (x["verdict"] == "useless" and [from_harness(p) for p in g["rows"][0]] != x["rows"][x["at"] - 1])
            if bad:
                c.violation(f"match over {scen} with clauses {x['rows']}: expected {x['verdict']} at clause {x['at']}, checker said {g}",
                            {"types": scen, "case": cases[i], "expected": x, "got": g})
        c.part(f"enumerated_{scen}_le{n}", len(cases))
        c.sample({"scenario": scen, "case": r["lines"][len(r["lines"]) // 2]}, 3)


# ------------------------------------------------------------- random matrices
def random_types(rng):
    names = [f"T{i}" for i in range(rng.randint(1, 4))]
    types = {"Int": []}
    k = 0
    for t in names:
        cs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
            cs.append({"c": f"K{k}", "args": [rng.choice(names + ["Int"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]})
            k += 1
        types[t] = cs
    return types


def rand_pat(rng, types, t, depth, nlit=3):
    if depth == 0 or rng.random() < 0.3:
        return W
    if not types[t]:
        return lit(str(rng.randrange(nlit)))
    k = rng.choice(types[t])
    return con(k["c"], [rand_pat(rng, types, a, depth - 1, nlit) for a in k["args"]])


def split_rows(rng, types, t, depth):
    """Clauses that together cover t: a random splitting tree (then perhaps damaged)."""
    if depth == 0 or not types[t] or rng.random() < 0.25:
        if t in types and not types[t] and depth and rng.random() < 0.6:
            return [lit(str(x)) for x in range(rng.randint(1, 2))] + [W]
        return [W]
    out = []
    for k in types[t]:
        combos = [[]]
        for a in k["args"]:
            sub = split_rows(rng, types, a, depth - 1)
            combos = [x + [s] for x in combos for s in sub]
        out += [con(k["c"], x) for x in combos[:40]] if len(combos) <= 40 else [con(k["c"], [W] * len(k["args"]))]
    return out


def vals_count(types, t, P):
    heads = [p for p in P if p["k"] != "_"]
    if not heads:
        return 1
    if not types[t]:
        return len({p["c"] for p in heads}) + 1
    n = 0
    for k in types[t]:
        m = 1
        for j, a in enumerate(k["args"]):
            m *= vals_count(types, a, [p["ps"][j] for p in heads if p["c"] == k["c"]])
        n += m
    return n


def random_matrix(rng):
    while True:
        types = random_types(rng)
        cols = [rng.choice(list(types)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.5:
            per = [split_rows(rng, types, t, rng.randint(1, 3)) for t in cols]
            rows = [[]]
            for sub in per:
                rows = [r + [s] for r in rows for s in sub]
            if len(rows) > 24:
                continue
            m = rng.random()
            if m < 0.3 and len(rows) > 1:
                rows.pop(rng.randrange(len(rows)))
            if m < 0.6:
                rng.shuffle(rows)
            if 0.5 < m < 0.8:
                rows.insert(rng.randint(0, len(rows)), [rand_pat(rng, types, t, 3) for t in cols])
        else:
            rows = [[rand_pat(rng, types, t, rng.randint(1, 3)) for t in cols] for _ in range(rng.randint(1, 7))]
        n = 1
        for j, t in enumerate(cols):
            n *= vals_count(types, t, [r[j] for r in rows])
        if n <= 1500:
            return types, cols, rows


def random_direct(c):
    n = c.pick(1500, 25000)
    recs, cases = [], []
    for i in range(n):
        types, cols, rows = random_matrix(c.rng)
        cases.append({"id": i, "types": harness_types(types), "rows": [[to_harness(p) for p in r] for r in rows]})
        recs.append({"id": i, "types": types, "cols": cols, "rows": rows, "full": True})
    got = c.harness("pat", cases)
    judge = []
    for r in recs:
        g = got[r["id"]]
        if "verdict" not in g:
            c.violation(f"the checker crashed on {r['rows']}: {g}", {"case": r, "got": g})
            continue
        # reported rows may refer to deeper values than the clauses do: keep the model's value set moderate
        r["got"] = {"verdict": g["verdict"], "rows": [[from_harness(p) for p in row] for row in g["rows"]]}
        if len(r["got"]["rows"]) > 200:
            continue
        judge.append(r)
    verdicts = {}
    for k in range(0, len(judge), 5000):
        verdicts.update(c.tlc_batch("PatMatch", judge[k:k + 5000], timeout=900))
    kinds = {}
    for r in judge:
        v = verdicts[r["id"]]
        kinds[v["verdict"]] = kinds.get(v["verdict"], 0) + 1
        c.validated()
        if not v["ok"]:
            c.violation(f"clauses {r['rows']} over {r['cols']}: model says {v['verdict']} (clause {v['at']}), checker said {r['got']}",
                        {"case": r, "model": v})
    for k, x in kinds.items():
        c.part(f"random_{k}", x)


# ------------------------------------------------------------- whole modules
LITS = {  # type -> (literal spelling, identity)
    "I32": [("0", "0"), ("7", "7"), ("007", "7"), ("-1", "-1"), ("2147483647", "max")],
    "U8": [("0", "0"), ("255", "255"), ("0255", "255")],
    "String": [('""', "e"), ('"a"', "a"), ('"a\\n"', "an")],
    "Char": [("#\\a", "a"), ("#\\A", "A"), ("#\\\\n", "nl")],
    "F64": [("1.5", "1.5"), ("1.50", "1.5"), ("0.0", "0")],
}


def e2e_case(rng):
    """A module whose only function matches over a random type; (source, types, type, rows)."""
    names = [f"T{i}" for i in range(rng.randint(1, 3))]
    prims = rng.sample(["I32", "U8", "String", "Char", "F64"], 2)
    types = {p: [] for p in prims}
    types["Bool"] = [{"c": "#f", "args": []}, {"c": "#t", "args": []}]
    types["Unit"] = [{"c": "unit", "args": []}]
    decls, spell = [], {"#f": "#f", "#t": "#t", "unit": "unit"}
    k = 0
    for i, t in enumerate(names):
        value = rng.random() < 0.3
        cs, text = [], []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            pool = prims + ["Bool", "Unit"] + (names[:i] if value else names)
            args = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2]))]
            cs.append({"c": f"k{k}:", "args": args})
            text.append(f"(k{k}: {' '.join('unit' if a == 'Unit' else a for a in args)})" if args else f"k{k}:")
            k += 1
        types[t] = cs
        decls.append(f"({'value-data' if value else 'data'} {t} {' '.join(text)})")
    # tuples
    for n in range(2):
        a = [rng.choice(list(types)) for _ in range(rng.choice([2, 3]))]
        types[f"Tup{n}"] = [{"c": f"tup{n}", "args": a}]
    top = rng.choice(names + ["Tup0", "Tup1"] + prims)

    def ty(t):
        if t == "Unit":
            return "unit"
        if t.startswith("Tup"):
            return "(: " + " ".join(ty(x) for x in types[t][0]["args"]) + ")"
        return t
    cnt = [0]

    def show(t, p):
        if p["k"] == "_":
            cnt[0] += 1
            return rng.choice(["_", f"(let v{cnt[0]})"])
        if p["k"] == "lit":
            return rng.choice([s for s, i in LITS[t] if i == p["c"]])
        args = types[t][[x["c"] for x in types[t]].index(p["c"])]["args"]
        ps = [show(a, q) for a, q in zip(args, p["ps"])]
        if p["c"].startswith("tup"):
            s = "(: " + " ".join(ps) + ")"
        else:
            s = spell.get(p["c"], p["c"]) if not args else f"({p['c']} {' '.join(ps)})"
        if rng.random() < 0.15:
            cnt[0] += 1
            return f"(let w{cnt[0]} {s})"
        return s

    def rp(t, depth):
        if depth == 0 or rng.random() < 0.3:
            return W
        if not types[t]:
            return lit(rng.choice(LITS[t])[1])
        kk = rng.choice(types[t])
        return con(kk["c"], [rp(a, depth - 1) for a in kk["args"]])

    def fix(p, t):  # literals of split_rows -> literals of this type
        if p["k"] == "lit":
            ids = [i for _, i in LITS[t]]
            return lit(ids[int(p["c"]) % len(ids)])
        if p["k"] == "con":
            args = types[t][[x["c"] for x in types[t]].index(p["c"])]["args"]
            return con(p["c"], [fix(q, a) for q, a in zip(p["ps"], args)])
        return p
    for _ in range(50):
        if rng.random() < 0.6:
            rows = [fix(p, top) for p in split_rows(rng, types, top, rng.randint(1, 3))]
            m = rng.random()
            if m < 0.3 and len(rows) > 1:
                rows.pop(rng.randrange(len(rows)))
            if m < 0.5:
                rng.shuffle(rows)
            if 0.4 < m < 0.6:
                rows.insert(rng.randint(0, len(rows)), rp(top, 3))
        else:
            rows = [rp(top, rng.randint(1, 3)) for _ in range(rng.randint(1, 5))]
        if len(rows) <= 16 and vals_count(types, top, rows) <= 800:
            break
    else:
        rows = [W]
    clauses = "\n  ".join(f"[{show(top, r)} {i}]" for i, r in enumerate(rows))
    body = f"(match x\n  {clauses})"
    # where the match stands in a module ...
    place = rng.choice(["function", "function", "transparent", "untyped", "default", "default", "instance", "macro", "init", "begin"])
    # ... and inside of an expression
    inner = rng.choice(["plain", "plain", "let", "match", "scrutinee", "clause", "local", "argument", "condition", "while", "init"] + ["return"] * (place not in ("macro", "init")))
    body = {
        "plain": body, "let": f"(let ([y 1]) (if #t {body} y))", "match": f"(match (: x 1) [(: (let x) _) {body}])",
        "scrutinee": f"(match {body} [0 1] [_ 2])", "clause": f"(match #t [#f 1] [#t {body}])", "local": f"(let ([(g x) {body}]) (g x))",
        "argument": f"(h {body})", "condition": f"(if (p {body}) 1 2)", "while": f"(begin (while #f {body}) 1)", "init": f"(let ([y {body}]) y)",
        "return": f"(begin (return {body}) 1)"}[inner]
    T = ty(top)
    mk = f"(function (mk) {{(-> {T})}} (mk))\n"
    tr = rng.choice(["", "transparent-"])
    code = {
        "function": f"(function (f x) {{(-> {T} I32)}} {body})", "transparent": f"(transparent-function (f x) {{(-> {T} I32)}} {body})",
        "untyped": f"{mk}(function (f) (h (let ([x (mk)]) {body})))",
        "default": f"(class (K A) ({tr}function (f a x) {{(-> A {T} I32)}} {body}))",
        "instance": f"(class (K A) (function (f a x) {{(-> A {T} I32)}}))\n(instance K.I (K Bool) ({tr}function (f a x) {body}))",
        "macro": f"{mk}(macro (m s) (match (h (let ([x (mk)]) {body})) [_ (ok s)]))",
        "init": f"{mk}(h (let ([x (mk)]) {body}))", "begin": f"(begin (function (f x) {{(-> {T} I32)}} {body}))"}[place]
    src = "(no-implicit-std)\n(import \"builtin\" _)\n(function (h n) {(-> I32 I32)} n)\n(function (p n) {(-> I32 Bool)} #t)\n" + "\n".join(decls) + f"\n{code}\n"
    return src, types, top, rows


def modules(c):
    n = c.pick(400, 4000)
    per = 50
    recs, cases = [], []
    for k in range(0, n, per):
        mods = {}
        for j in range(per):
            src, types, top, rows = e2e_case(c.rng)
            mods[f"~/m{j}"] = src
            recs.append({"id": k + j, "types": types, "cols": [top], "rows": [[r] for r in rows], "full": False, "src": src})
        cases.append({"id": k, "mods": mods, "entries": list(mods)})
    got = c.harness("build", cases, shards=8)
    judge = []
    for r in recs:
        g = got[r["id"] // per * per]
        name = f"~/m{r['id'] % per}"
        if g.get("stage") != "module":
            c.violation(f"modules could not be built: {str(g)[:600]}", {"case": g})
            break
        errs = [e["err"] for e in g["errors"] if e["path"] == name]
        if not errs and name not in g["built"]:
            c.violation(f"{name} was neither built nor reported", {"src": r["src"]})
            continue
        v = {"UselessPattern": "useless", "NonExhaustivePattern": "missing"}.get(errs[0], errs[0]) if errs else "ok"
        if v not in ("ok", "useless", "missing"):
            c.violation(f"unexpected error {errs} for\n{r['src']}", {"src": r["src"], "errors": [e for e in g['errors'] if e['path'] == name]})
            continue
        r["got"] = {"verdict": v, "rows": []}
        judge.append(r)
    verdicts = c.tlc_batch("PatMatch", [{k: x for k, x in r.items() if k != "src"} for r in judge], timeout=900) if judge else {}
    for r in judge:
        v = verdicts[r["id"]]
        c.validated()
        c.part(f"module_{v['verdict']}", 1)
        if not v["ok"]:
            c.violation(f"module judged {r['got']['verdict']}, model says {v['verdict']} (clause {v['at']}):\n{r['src']}",
                        {"src": r["src"], "model": v})


# literals that denote one value and are represented in several ways
ALIKE = {"I32": [("0", "0", "0"), ("-0", "0", "-0"), ("7", "7", "7"), ("+7", "7", "+7"), ("-1", "-1", "-1"), ("4294967295", "-1", "2^32-1")],
         "U8": [("0", "0", "0"), ("256", "0", "256"), ("5", "5", "5"), ("+5", "5", "+5"), ("255", "255", "255"), ("-1", "255", "-1")],
         "F64": [("0.0", "0", "0"), ("-0.0", "0", "0"), ("1.0", "1", "1"), ("10e-1", "1", "1")]}
KEY = "integer literal patterns of one value and several representations"


def spellings(c):
    recs, mods = [], {}
    for j in range(c.pick(40, 400)):
        t = c.rng.choice(list(ALIKE))
        rows = [c.rng.choice(ALIKE[t]) for _ in range(c.rng.choice([2, 3, 4]))]
        text = " ".join(f"[{x} {n}]" for n, (x, _, _) in enumerate(rows))
        src = f'(no-implicit-std)\n(import "builtin" _)\n(function (f x) {{(-> {t} I32)}} (match x {text} [_ 9]))\n'
        mods[f"~/m{j}"] = src
        for k in (1, 2):
            recs.append({"id": 2 * j + k - 1, "types": {t: []}, "cols": [t], "rows": [[lit(r[k])] for r in rows] + [[W]], "full": False, "src": src})
    g = c.harness("build", [{"id": 0, "mods": mods, "entries": list(mods)}])[0]
    if g.get("stage") != "module":
        c.violation(f"modules could not be built: {str(g)[:600]}", {"case": g})
        return
    for r in recs:
        errs = [e["err"] for e in g["errors"] if e["path"] == f"~/m{r['id'] // 2}"]
        r["got"] = {"verdict": {"UselessPattern": "useless", "NonExhaustivePattern": "missing"}.get(errs[0], errs[0]) if errs else "ok", "rows": []}
        if r["got"]["verdict"] not in ("ok", "useless", "missing"):
            c.violation(f"unexpected error {errs} for\n{r['src']}", {"src": r["src"]})
            return
    v = c.tlc_batch("PatMatch", [{k: x for k, x in r.items() if k != "src"} for r in recs])
    for r in recs[::2]:
        c.validated()
        if not v[r["id"]]["ok"]:
            c.violation(f"module judged {r['got']['verdict']}, model says {v[r['id']]['verdict']}:\n{r['src']}",
                        {"src": r["src"], **({"key": KEY} if v[r["id"] + 1]["ok"] and r["got"]["verdict"] == "ok" else {})})


def run(c):
    c.build(llrl0=False)
    generated(c)
    random_direct(c)
    modules(c)
    spellings(c)
    c.assumptions = ["the scrutinee's parts not looked into by any pattern are inhabited",
                     "value sets are taken up to the distinctions the clauses make (exact for matching)"]


if __name__ == "__main__":
    main("P07", run)
