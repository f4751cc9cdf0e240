"""Programs for Kinds.tla: declarations whose types are chosen by kind, then often broken a little.

A kind is "*", "Constraint", ... or a tuple of its arguments and its result; types are terms as in infergen."""
import copy
from infergen import C, G

STAR, L, P2, H = "*", ("*", "*"), ("*", "*", "*"), (("*", "*"), "*")
KINDS = [STAR] * 8 + [L] * 5 + [P2] * 2 + [H] * 2 + [(L, STAR, STAR), ("*", L), (H, "*"), (P2, "*"), (L, L), (L, L, "*")]
BASE = {"I32": STAR, "unit": STAR, "Ptr": L}


def kstr(k): return k if isinstance(k, str) else "(-> " + " ".join(map(kstr, k)) + ")"


def kterm(k):
    if isinstance(k, str):
        return C("t" if k == "*" else k)
    return {"k": "a", "f": C("->"), "l": [kterm(x) for x in k]} if len(k) > 1 else kterm(k[0])


def kshow(t):
    """the specification's kinds as the compiler shows them"""
    if t["k"] == "c":
        return "*" if t["n"] == "t" else t["n"]
    return "(-> " + " ".join(map(kshow, t["l"])) + ")"


def tstr(t):
    if t["k"] in "cg":
        return t.get("n") or t["g"]
    if t["k"] == "->":
        return "(-> " + " ".join(map(tstr, t["l"])) + ")"
    return "(" + " ".join(map(tstr, [t["f"]] + t["l"])) + ")"


def cstr(c): return "(" + " ".join([c["c"]] + [tstr(x) for x in c["l"]]) + ")" if c["l"] else c["c"]


class Gen:
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.env, self.classes = dict(BASE), {}
        self.said = rng.choice([0.5, 0.8, 0.9, 1])
        self.ms = [self.module() for _ in range(rng.choice([1, 1, 1, 2]))]

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def params(self, n, kinds=None):
        """[(parameter, kind)]"""
        res = []
        for j in range(n):
            k = self.r.choice(KINDS)
            q = self.r.random()
            ann = [k] if q < (0.2 if k == STAR else self.said) else []
            if q > 0.996:
                ann = [self.r.choice(["Constraint", "Value", ("*", "Constraint"), ("*",), ((("*",), "*"), "*")])]
            res.append(({"g": self.fresh("A"), "a": ann}, k))
        return res

    def atoms(self, scope): return [(C(n), k) for n, k in self.env.items()] + [(G(g), k) for g, k in scope.items()] * 2

    def type(self, scope, k=STAR, d=3):
        r = self.r
        if r.random() < 0.001:
            k = r.choice(KINDS)
        ats = self.atoms(scope)
        if k == STAR and d > 0 and r.random() < 0.12:
            return {"k": "->", "l": [self.type(scope, STAR, d - 1) for _ in range(r.choice([1, 2, 3]))]}
        have = {STAR} | {x for _, x in ats} if r.random() < 0.99 else set(KINDS)
        ats = [(t, x) for t, x in ats if x == k or isinstance(x, str) or all(y in have for y in x[:-1])]
        plain = [t for t, x in ats if x == k]
        apps = [(t, x) for t, x in ats if x != k and not isinstance(x, str) and x[-1] == k] if d > 0 or not plain else []
        deep = [(t, x) for t, x in ats if not isinstance(x, str) and not isinstance(x[-1], str) and x[-1][-1] == k and all(y in have for y in x[-1][:-1])] if d > 0 else []
        pick = [("p", t, None) for t in plain] + [("a", t, x) for t, x in apps] * 2 + [("d", t, x) for t, x in deep] * 3
        if not pick:
            return r.choice(ats)[0]
        what, t, x = r.choice(pick)
        if what == "p":
            return t
        t = {"k": "a", "f": t, "l": [self.type(scope, y, d - 1) for y in x[:-1]]}
        return t if what == "a" else {"k": "a", "f": t, "l": [self.type(scope, y, d - 1) for y in x[-1][:-1]]}

    def constraints(self, scope, n):
        have = {STAR} | {k for _, k in self.atoms(scope)}
        cs = [c for c in sorted(self.classes) if all(k in have for k in self.classes[c]) or self.r.random() < 0.01]
        return [{"c": c, "l": [self.type(scope, k, 1) for k in self.classes[c]]} for c in (self.r.choice(cs) for _ in range(n))] if cs else []

    def function(self, outer, d=2, name="f", body=True):
        ps = self.params(self.r.choice([0, 0, 1, 1, 2]))
        scope = {**outer, **{p["g"]: k for p, k in ps}}
        return {"n": self.fresh(name), "ps": [p for p, _ in ps], "s": self.constraints(scope, self.r.choice([0, 0, 1, 1, 2])),
                "t": {"k": "->", "l": [self.type(scope, STAR, 3)]} if self.r.random() < 0.4 or name == "g" else self.type(scope), "b": self.body(scope, d) if body else []}

    def body(self, scope, d=2):
        return [{"k": "ann", "t": self.type(scope)} if d == 0 or self.r.random() < 0.6 else {"k": "fun", "f": self.function(scope, d - 1, "g")}
                for _ in range(self.r.choice([0, 0, 0, 1, 2]))]

    def module(self):
        r = self.r
        m = {}
        heads = [(self.fresh("T"), self.params(r.choice([0, 1, 1, 2, 2, 3]))) for _ in range(r.choice([1, 2, 3, 4]))]
        done, back = {}, r.random()
        m["data"] = []
        if not self.classes and "Pr" not in self.env:
            for n, *ks in (("Pr", STAR, STAR), ("Hk", L), ("Hb", P2), ("Mt", L, STAR))[:r.choice([0, 2, 3, 4])]:
                m["data"].append({"n": n, "ps": [{"g": self.fresh("A"), "a": [k]} for k in ks], "fs": []})
                self.env[n] = tuple(ks + [STAR])
        if back < 0.6:                                   # anything may mention anything
            self.env.update({n: tuple([k for _, k in ps] + [STAR]) if ps else STAR for n, ps in heads})
        for n, ps in heads:
            scope = {p["g"]: k for p, k in ps}
            m["data"].append({"n": n, "ps": [p for p, _ in ps], "fs": [self.type(scope) for _ in range(r.choice([0, 1, 1, 2, 3]))]})
            self.env[n] = tuple([k for _, k in ps] + [STAR]) if ps else STAR
        r.shuffle(m["data"])
        heads = [(self.fresh("K"), self.params(r.choice([0, 1, 1, 1, 2, 3]))) for _ in range(r.choice([0, 1, 2, 3]))]
        m["classes"] = []
        for n, ps in heads:                              # superclasses come before
            scope = {p["g"]: k for p, k in ps}
            m["classes"].append({"n": n, "ps": [p for p, _ in ps], "sup": self.constraints(scope, r.choice([0, 0, 1, 1])), "ms": []})
            self.classes[n] = [k for _, k in ps]
        for (n, ps), c in zip(heads, m["classes"]):
            c["ms"] = [self.function({p["g"]: k for p, k in ps}, 1, "m", r.random() < 0.3) for _ in range(r.choice([0, 1, 1, 2]))]
        r.shuffle(m["classes"])
        m["insts"] = []
        for c in sorted(self.classes):
            if r.random() < 0.5:
                ps = self.params(r.choice([0, 1, 1, 2]))
                scope = {p["g"]: k for p, k in ps}
                have = {STAR} | {k for _, k in self.atoms(scope)}
                if all(k in have for k in self.classes[c]) or r.random() < 0.01:
                    m["insts"].append({"n": self.fresh("N"), "ps": [p for p, _ in ps], "s": self.constraints(scope, r.choice([0, 0, 1])),
                                       "h": {"c": c, "l": [self.type(scope, k, 2) for k in self.classes[c]]}, "ms": []})
        m["funs"] = [self.function({}) for _ in range(r.choice([0, 1, 2, 3]))]
        m["inits"] = self.body({}, 1)
        return m


def sites(x, acc):
    """what holds types: (holder, key)"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("t", "f") and isinstance(v, dict) and v.get("k") in ("c", "g", "a", "->"):
                acc.append((x, k))
            sites(v, acc)
    elif isinstance(x, list):
        for j, v in enumerate(x):
            if isinstance(v, dict) and v.get("k") in ("c", "g", "a", "->"):
                acc.append((x, j))
            sites(v, acc)
    return acc


def mutate(rng, ms):
    """a type in place of another of the same declaration, an argument more or less, an annotation changed or dropped"""
    m = rng.choice(ms)
    ds = [d for k in ("data", "classes", "insts", "funs") for d in m[k]]
    if not ds:
        return
    d = rng.choice(ds)
    q = rng.random()
    ss = sites(d, [])
    if q < 0.25 and d["ps"]:
        p = rng.choice(d["ps"])
        p["a"] = [] if rng.random() < 0.5 else [rng.choice(KINDS)]
    elif ss:
        h, k = rng.choice(ss)
        if isinstance(h, dict) and h.get("n", "").startswith("g"):
            return                                      # local functions are functions
        if q < 0.6:
            scope = [G(p["g"]) for p in d["ps"]] + [C("I32"), C("Ptr")]
            h[k] = copy.deepcopy(rng.choice(scope))
        elif h[k]["k"] == "a" and len(h[k]["l"]) > 0:
            t = h[k]
            if rng.random() < 0.5 and len(t["l"]) > 1:
                t["l"].pop()
            elif rng.random() < 0.5:
                t["l"].append(copy.deepcopy(rng.choice(t["l"])))
            else:
                t["f"], t["l"][0] = t["l"][0], t["f"]


def pstr(p): return f"[{p['g']} {kstr(p['a'][0])}]" if p["a"] else p["g"]
def head(n, ps): return "(" + " ".join([n] + [pstr(p) for p in ps]) + ")" if ps else n
def where(s): return " (where " + " ".join(map(cstr, s)) + ")" if s else ""
def forall(ps): return "(forall " + " ".join(map(pstr, ps)) + ") " if ps else ""


def call(f): return "(" + " ".join([f["n"]] + [f"x{j}" for j in range(len(f["t"]["l"]) - 1)]) + ")" if f["t"]["k"] == "->" else f["n"]


def fstr(f, body=True):
    n = call(f)
    return f"(function {n} {{{forall(f['ps'])}{tstr(f['t'])}{where(f['s'])}}}" + (f" {bstr(f['b'])})" if body else ")")


def bstr(b):
    """expressions that mention the types; their own types do not matter"""
    res = "bot"
    for x in reversed(b):
        if x["k"] == "fun":
            res = f"(let ([{fstr(x['f'])[10:-1]}]) {res})"
        elif len(str(x["t"])) % 2:
            res = f"(let ([v {{{tstr(x['t'])}}} bot]) {res})"
        else:
            res = f"(begin (annotate bot {tstr(x['t'])}) {res})"
    return res


def mstr(m, first, methods):
    out = ["(no-implicit-std)", '(import "builtin" I32)']
    if not first:
        out.append('(import "~/first" _)')
    out.append("(export _)")
    if first:
        out.append('(builtin-type (Ptr A) "array")\n(function bot {(forall A) A} bot)')
    for d in m["data"]:
        fs = [tstr(t) for t in d["fs"]]
        h = len(fs) // 2                                # fields of two constructors
        cons = [f"(c{d['n']}{j} {' '.join(x)})" for j, x in enumerate((fs[:h], fs[h:])) if x]
        out.append(f"(data {head(d['n'], d['ps'])} {' '.join(cons)})")
    for c in m["classes"]:
        out.append(f"(class {head(c['n'], c['ps'])}{where(c['sup'])} {' '.join(fstr(f, bool(f['b'])) for f in c['ms'])})")
    for i in m["insts"]:
        impl = " ".join(f"(function {call(f)} bot)" for f in methods[i["h"]["c"]])
        out.append(f"(instance {i['n']} {forall(i['ps'])}{cstr(i['h'])}{where(i['s'])} {impl})")
    for f in m["funs"]:
        out.append(fstr(f))
    if m["inits"]:
        out.append(bstr(m["inits"]))
    return "\n".join(out)


def modules(ms):
    methods = {c["n"]: c["ms"] for m in ms for c in m["classes"]}
    return {"~": mstr(ms[0], True, methods)} if len(ms) == 1 else {"~/first": mstr(ms[0], True, methods), "~": mstr(ms[1], False, methods)}


def spec(x):
    """annotations as terms"""
    if isinstance(x, dict):
        return {k: ([kterm(y) for y in v] if k == "a" else spec(v)) for k, v in x.items()}
    return [spec(y) for y in x] if isinstance(x, list) else x
