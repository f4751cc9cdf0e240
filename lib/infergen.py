"""Programs for Infer.tla: terms in the specification's form, their source text, and a generator.

The generator makes a program that has types (it picks the types first), then often breaks it a little; whether
the result has types is for the specification to say."""
import copy


def C(n): return {"k": "c", "n": n}
def G(n): return {"k": "g", "g": n}
def app(n, *l): return {"k": "a", "f": C(n), "l": list(l)} if l else C(n)
def fun(*l): return app("->", *l)
def scheme(ps, s, t): return {"ps": list(ps), "s": list(s), "t": t}
def con(c, *l): return {"c": c, "l": list(l)}


BOOL, STR, CHAR, I32, I64, F64, UNIT = (C(x) for x in ("Bool", "String", "Char", "I32", "I64", "F64", "unit"))
A, B = G("A"), G("B")


def tstr(t):
    if t["k"] == "c":
        return t["n"]
    if t["k"] == "g":
        return t["g"]
    if t["k"] == "v":
        return f"?{t['v']}"
    return "(" + " ".join([tstr(t["f"])] + [tstr(x) for x in t["l"]]) + ")"


def cstr(c): return "(" + " ".join([c["c"]] + [tstr(x) for x in c["l"]]) + ")" if c["l"] else c["c"]


def sstr(s, braces=True):
    where = " (where " + " ".join(map(cstr, s["s"])) + ")" if s["s"] else ""
    forall = "(forall " + " ".join(s["ps"]) + ") " if s["ps"] else ""
    return "{" + forall + tstr(s["t"]) + where + "}"


def gens(t, acc=None):
    acc = [] if acc is None else acc
    if t["k"] == "g":
        if t["g"] not in acc:
            acc.append(t["g"])
    elif t["k"] == "a":
        gens(t["f"], acc)
        for x in t["l"]:
            gens(x, acc)
    return acc


def subst(m, t):
    if t["k"] == "g":
        return m.get(t["g"], t)
    if t["k"] == "a":
        return {"k": "a", "f": subst(m, t["f"]), "l": [subst(m, x) for x in t["l"]]}
    return t


def match(m, ps, a, b):
    if a["k"] == "g" and a["g"] in ps:
        if a["g"] in m:
            return m[a["g"]] == b
        m[a["g"]] = b
        return True
    if a["k"] != b["k"]:
        return False
    if a["k"] == "a":
        return len(a["l"]) == len(b["l"]) and match(m, ps, a["f"], b["f"]) and all(match(m, ps, x, y) for x, y in zip(a["l"], b["l"]))
    return a == b


def estr(e):
    k = e["k"]
    if k == "u":
        return e["n"]
    if k in ("c", "n", "f"):
        return e["x"]
    if k == "a":
        return "(" + " ".join(map(estr, [e["f"]] + e["l"])) + ")"
    if k == "i":
        return f"(if {estr(e['c'])} {estr(e['t'])} {estr(e['e'])})"
    if k == "w":
        return f"(while {estr(e['c'])} {estr(e['b'])})"
    if k == "q":
        return "(begin " + " ".join(map(estr, e["l"])) + ")"
    if k == "t":
        return f"(annotate {estr(e['b'])} {tstr(e['ann'])})"
    if k == "r":
        return f"(return {estr(e['b'])})"
    if k == "m":
        return f"(match {estr(e['t'])} " + " ".join(f"[{pstr(c['p'])} {estr(c['b'])}]" for c in e["cs"]) + ")"
    if k == "l":
        ds = []
        for j in e["ord"]:
            if j < len(e["fs"]):
                f = e["fs"][j]
                ds.append(f"[({' '.join([f['n']] + f['ps'][0])}) {sstr(f['ann'][0]) + ' ' if f['ann'] else ''}{estr(f['b'])}]")
            else:
                v = e["vs"][j - len(e["fs"])]
                ds.append(f"[{v['n']} {'{' + tstr(v['ann'][0]) + '} ' if v['ann'] else ''}{estr(v['b'])}]")
        return f"(let ({' '.join(ds)}) {estr(e['b'])})"
    raise ValueError(e)


def pstr(p):
    k = p["k"]
    if k == "_":
        return "_"
    if k == "v":
        return f"(let {p['n']})"
    if k == "as":
        return f"(let {p['n']} {pstr(p['p'])})"
    if k in ("c", "n"):
        return p["x"]
    return "(" + " ".join([p["n"]] + [pstr(x) for x in p["l"][0]]) + ")" if p["l"] else p["n"]


def fstr(f):
    head = f"({' '.join([f['n']] + f['ps'][0])})" if f["ps"] else f["n"]
    return f"(function {head} {sstr(f['ann'][0]) + ' ' if f['ann'] else ''}{estr(f['b'])})"


CONSTS = {"Bool": ["#t", "#f"], "String": ['"s"', '"t"'], "Char": ["#\\a", "#\\b"]}


class World:
    """data, classes, instances; env: name -> scheme; text: their declarations."""

    def __init__(self):
        s = scheme
        opt, pair, lst = (lambda a: app("Opt", a)), (lambda a, b: app("Pair", a, b)), (lambda a: app("List", a))
        self.data = {"Opt": (["A"], [("none", []), ("some", [A])]), "Pair": (["A", "B"], [("pair", [A, B])]),
                     "List": (["A"], [("nil", []), ("cons", [A, lst(A)])]),
                     "Fn": (["A", "B"], [("fn", [fun(A, B)])])}
        self.classes = {"Number": (["A"], []), "FPNumber": (["A"], []), "Sh": (["A"], []), "Eq": (["A"], []),
                        "Ord": (["A"], [con("Eq", A)]), "Cv": (["A", "B"], []), "Df": (["A"], [])}
        self.insts = [("Number." + t, [], [], con("Number", C(t))) for t in ("I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64")]
        self.insts += [("FPNumber." + t, [], [], con("FPNumber", C(t))) for t in ("F32", "F64")]
        self.insts += [("Sh.Bool", [], [], con("Sh", BOOL)), ("Sh.I32", [], [], con("Sh", I32)), ("Sh.unit", [], [], con("Sh", UNIT)),
                       ("Sh.Opt", ["A"], [con("Sh", A)], con("Sh", opt(A))),
                       ("Sh.Pair", ["A", "B"], [con("Sh", A), con("Eq", B)], con("Sh", pair(A, B))),
                       ("Eq.Bool", [], [], con("Eq", BOOL)), ("Eq.I32", [], [], con("Eq", I32)), ("Eq.F64", [], [], con("Eq", F64)), ("Eq.String", [], [], con("Eq", STR)),
                       ("Eq.List", ["A"], [con("Eq", A)], con("Eq", lst(A))),
                       ("Ord.Bool", [], [], con("Ord", BOOL)), ("Ord.I32", [], [], con("Ord", I32)),
                       ("Ord.List", ["A"], [con("Ord", A)], con("Ord", lst(A))),
                       ("Cv.same", ["A"], [], con("Cv", opt(A), A)), ("Cv.str", ["A"], [con("Sh", A)], con("Cv", lst(A), STR)),
                       ("Df.Bool", [], [], con("Df", BOOL)), ("Df.F64", [], [], con("Df", F64)), ("Df.Opt", ["A"], [], con("Df", opt(A)))]
        self.methods = {"sh": ("Sh", s(["A"], [], fun(A, STR))), "eq": ("Eq", s(["A"], [], fun(A, A, BOOL))),
                        "lt": ("Ord", s(["A"], [], fun(A, A, BOOL))), "cv": ("Cv", s(["A", "B"], [], fun(A, B))), "df": ("Df", s(["A"], [], A))}
        self.funs = {"bot": (s(["A"], [], fun(A)), "(bot)", []), "ap": (s(["A", "B"], [], fun(fun(A, B), A, B)), "(f x)", ["f", "x"]),
                     "self": (s(["A"], [], A), "self", None),
                     "max": (s(["A"], [con("Ord", A)], fun(A, A, A)), "(if (lt a b) b (if (eq a b) a b))", ["a", "b"])}
        self.done()

    def done(self):
        self.env = {"unit": scheme([], [], UNIT)}
        self.cons = {}
        for d, (ps, cs) in self.data.items():
            for n, fs in cs:
                r = app(d, *map(G, ps))
                self.env[n] = scheme(ps, [], fun(*fs, r) if fs else r)
                self.cons[n] = (d, ps, fs)
        for n, (c, sc) in self.methods.items():
            ps, _ = self.classes[c]
            self.env[n] = scheme(sc["ps"], [con(c, *map(G, ps))] + sc["s"], sc["t"])
        for n, (sc, _, _) in self.funs.items():
            self.env[n] = sc

    def json(self):
        return {"env": self.env, "classes": {c: {"ps": ps, "sup": sup} for c, (ps, sup) in self.classes.items()},
                "insts": [{"ps": ps, "s": s, "h": h} for _, ps, s, h in self.insts]}

    def text(self):
        out = ['(no-implicit-std)', '(import "builtin" Bool String Char Number FPNumber I8 I16 I32 I64 U8 U16 U32 U64 F32 F64 Number._ FPNumber._)']
        for d, (ps, cs) in self.data.items():
            out.append(f"(data {'(' + ' '.join([d] + ps) + ')' if ps else d} " +
                       " ".join("(" + " ".join([n] + [tstr(x) for x in fs]) + ")" if fs else n for n, fs in cs) + ")")
        for c, (ps, sup) in self.classes.items():
            if c in ("Number", "FPNumber"):
                continue
            ms = [(n, sc) for n, (k, sc) in self.methods.items() if k == c]
            body = " ".join(f"(function {'(' + n + ''.join(' p%d' % j for j in range(len(sc['t']['l']) - 1)) + ')' if sc['t']['k'] == 'a' and sc['t']['f'] == C('->') else n} {{{tstr(sc['t'])}}})" for n, sc in ms)
            out.append(f"(class {cstr(con(c, *map(G, ps)))}{' (where ' + ' '.join(map(cstr, sup)) + ')' if sup else ''} {body})")
        for n, ps, s, h in self.insts:
            if h["c"] in ("Number", "FPNumber"):
                continue
            ms = []
            for m, (k, sc) in self.methods.items():
                if k == h["c"]:
                    ar = len(sc["t"]["l"]) - 1 if sc["t"]["k"] == "a" and sc["t"]["f"] == C("->") else None
                    ms.append(f"(function {m} self)" if ar is None else f"(function ({' '.join([m] + ['p%d' % j for j in range(ar)])}) (bot))")
            out.append(f"(instance {n}{' (forall ' + ' '.join(ps) + ')' if ps else ''} {cstr(h)}{' (where ' + ' '.join(map(cstr, s)) + ')' if s else ''} {' '.join(ms)})")
        for n, (sc, body, ps) in self.funs.items():
            out.append(f"(function {n if ps is None else '(' + ' '.join([n] + ps) + ')'} {sstr(sc)} {body})")
        return "\n".join(out)


class Gen:
    def __init__(self, rng, world):
        self.r, self.w, self.n = rng, world, 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def type(self, gs, deep=2):
        r = self.r
        k = r.random()
        if gs and k < 0.45:
            return G(r.choice(gs))
        if deep == 0 or k < 0.75:
            return r.choice([BOOL, BOOL, STR, I32, I32, I64, F64, UNIT, CHAR])
        return r.choice([lambda: app("Opt", self.type(gs, deep - 1)), lambda: app("List", self.type(gs, deep - 1)),
                         lambda: app("Pair", self.type(gs, deep - 1), self.type(gs, deep - 1)),
                         lambda: fun(*[self.type(gs, deep - 1) for _ in range(r.choice([1, 2, 2, 3]))])])()

    def plausible(self, c, d=0):
        """Whether the constraint may hold; those about type parameters are for the signature."""
        if any(x["k"] == "g" for x in c["l"]):
            return True
        for _, ps, s, h in self.w.insts:
            m = {}
            if h["c"] == c["c"] and all(match(m, ps, a, b) for a, b in zip(h["l"], c["l"])):
                return d > 5 or all(self.plausible(con(x["c"], *[subst(m, y) for y in x["l"]]), d + 1) for x in s)
        return False

    # ctx: gs (type parameters that may be meant), own (those that may be written), ret, need (constraints used)
    def expr(self, t, deep, scope, ctx):
        r = self.r
        opts = []
        for n, sc in scope:
            if not sc["ps"] and sc["t"] == t:
                opts += [("u", n, sc)] * 6
            elif sc["ps"] and match({}, sc["ps"], sc["t"], t):
                opts += [("u", n, sc)] * 3
        if t["k"] == "c":
            if t["n"] in CONSTS:
                opts += ["const"] * 2
            if t["n"] in ("I32", "I64", "F64"):
                opts += ["num"] * 2
            if t["n"] == "unit":
                opts += ["unit"] * 2
        for n, sc in self.w.env.items():
            if match({}, sc["ps"], sc["t"], t) and n not in ("self", "df"):
                opts += [("u", n, sc)]
        if deep > 0:
            for n, sc in scope + [x for x in self.w.env.items()]:
                tt = sc["t"]
                if tt["k"] == "a" and tt["f"] == C("->"):
                    if match({}, sc["ps"], tt["l"][-1], t):
                        opts += [("a", n, sc)] * (1 if n in ("bot", "ap", "cv", "max") else 4)
            opts += ["if", "let", "let", "let", "match", "match"] + ["seq", "ann", "lam", "call"][r.randrange(4):][:1]
            if ctx["ret"] is not None and r.random() < 0.2:
                opts += ["ret"]
            if t == UNIT:
                opts += ["while"]
            if t["k"] == "a" and t["f"] == C("->") and len(t["l"]) > 1:
                opts += ["lam"] * 4
        if not opts:
            return {"k": "a", "f": {"k": "u", "n": "bot"}, "l": []}
        o = r.choice(opts)
        sub = lambda ty, s=scope: self.expr(ty, deep - 1, s, ctx)
        if isinstance(o, tuple):
            kind, n, sc = o
            m = {}
            match(m, sc["ps"], sc["t"] if kind == "u" else sc["t"]["l"][-1], t)
            for p in sc["ps"]:
                if p not in m:
                    m[p] = self.type(ctx["gs"], 1)
            cs = [con(c["c"], *[subst(m, x) for x in c["l"]]) for c in sc["s"]]
            if self.r.random() < 0.97 and not all(map(self.plausible, cs)):
                return self.expr(t, deep - 1, scope, ctx) if deep > 0 else {"k": "a", "f": {"k": "u", "n": "bot"}, "l": []}
            ctx["need"] += cs
            if kind == "u":
                return {"k": "u", "n": n}
            return {"k": "a", "f": {"k": "u", "n": n}, "l": [sub(subst(m, x)) for x in sc["t"]["l"][:-1]]}
        if o == "const":
            return {"k": "c", "t": t, "x": r.choice(CONSTS[t["n"]])}
        if o == "unit":
            return {"k": "u", "n": "unit"}
        if o == "num":
            if t == F64 and r.random() < 0.6:
                ctx["need"].append(con("FPNumber", t))
                return {"k": "f", "x": "1.5"}
            ctx["need"].append(con("Number", t))
            return {"k": "n", "x": str(r.randrange(9))}
        if o == "if":
            return {"k": "i", "c": sub(BOOL), "t": sub(t), "e": sub(t)}
        if o == "while":
            return {"k": "w", "c": sub(BOOL), "b": sub(self.type(ctx["gs"], 1))}
        if o == "seq":
            return {"k": "q", "l": [sub(self.type(ctx["gs"], 1)), sub(t)]}
        if o == "ret":
            return {"k": "r", "b": sub(ctx["ret"])}
        if o == "call":
            x = self.type(ctx["gs"], 1)
            return {"k": "a", "f": sub(fun(x, t)), "l": [sub(x)]}
        if o == "ann":
            if all(g in ctx["own"] for g in gens(t)):
                return {"k": "t", "b": sub(t), "ann": t}
            return sub(t)
        if o == "lam" and t["k"] == "a" and t["f"] == C("->") and len(t["l"]) > 1:
            f = self.name("h")
            ps = [self.name("p") for _ in t["l"][:-1]]
            return self.let([self.func(f, t, [], ps, scope, ctx, deep - 1, mono=True)], [], {"k": "u", "n": f})
        if o == "match":
            return self.match(t, deep, scope, ctx)
        return self.letx(t, deep, scope, ctx)

    def let(self, fs, vs, b):
        o = list(range(len(fs) + len(vs)))
        self.r.shuffle(o)
        return {"k": "l", "fs": fs, "vs": vs, "b": b, "ord": o}

    def letx(self, t, deep, scope, ctx):
        r = self.r
        fs, inner = [], scope
        if r.random() < 0.75:
            fs, inner = self.group(r.choice([1, 1, 1, 2, 2, 3]), scope, ctx, deep - 1, local=True)
        vs, new = [], []
        for _ in range(r.choice([0, 1, 1, 2] if fs else [1, 1, 2])):
            v, ty = self.name("v"), self.type(ctx["gs"], 2)
            ann = [ty] if r.random() < 0.15 and all(g in ctx["own"] for g in gens(ty)) else []
            vs.append({"k": "def", "n": v, "ann": ann, "b": self.expr(ty, deep - 1, inner, ctx)})
            new.append((v, scheme([], [], ty)))
        return self.let(fs, vs, self.expr(t, deep - 1, inner + new, ctx))

    def pattern(self, t, deep, bind):
        r = self.r
        k = r.random()
        if k < 0.15:
            return {"k": "_"}
        if k < 0.5 or deep == 0:
            n = self.name("m")
            bind.append((n, scheme([], [], t)))
            return {"k": "v", "n": n}
        if k < 0.6:
            n = self.name("m")
            bind.append((n, scheme([], [], t)))
            return {"k": "as", "n": n, "p": self.pattern(t, deep - 1, bind)}
        if t["k"] == "c" and t["n"] in CONSTS:
            return {"k": "c", "t": t, "x": r.choice(CONSTS[t["n"]])}
        if t["k"] == "c" and t["n"] in ("I32", "I64"):
            return {"k": "n", "x": str(r.randrange(9))}
        if t["k"] == "a" and t["f"].get("n") in self.w.data:
            ps, cs = self.w.data[t["f"]["n"]]
            n, fs = r.choice(cs)
            m = dict(zip(ps, t["l"]))
            return {"k": "d", "n": n, "l": [[self.pattern(subst(m, x), deep - 1, bind) for x in fs]] if fs else []}
        return {"k": "_"}

    def sure(self, p):
        """Matches everything: nothing may come after it."""
        return p["k"] in ("_", "v") or p["k"] == "as" and self.sure(p["p"]) or \
            p["k"] == "d" and len(self.w.data[self.w.cons[p["n"]][0]][1]) == 1 and all(self.sure(x) for x in (p["l"] or [[]])[0])

    def match(self, t, deep, scope, ctx):
        r = self.r
        tt = self.type(ctx["gs"], 2)
        if r.random() < 0.5:
            mine = [sc["t"] for _, sc in scope if not sc["ps"]]
            tt = r.choice(mine) if mine else tt
        cs = []
        for _ in range(r.choice([0, 1, 1])):
            bind = []
            p = self.pattern(tt, 2, bind)
            if self.sure(p):
                continue
            cs.append({"p": p, "b": self.expr(t, deep - 1, scope + bind, ctx)})
        n = self.name("m")
        cs.append({"p": {"k": "v", "n": n}, "b": self.expr(t, deep - 1, scope + [(n, scheme([], [], tt))], ctx)})
        return {"k": "m", "t": self.expr(tt, deep - 1, scope, ctx), "cs": cs}

    def func(self, n, t, ps, params, scope, ctx, deep, mono=False, ann=False):
        """A definition of n, of type t; ps: the type parameters that it is meant to have."""
        need = []
        c = {"gs": ctx["gs"] + ps, "own": ctx["own"] + (ps if ann else []), "need": need, "ret": None}
        if params is None:
            c["ret"] = t
            b = self.expr(t, deep, scope, c)
        else:
            c["ret"] = t["l"][-1]
            b = self.expr(t["l"][-1], deep, scope + [(p, scheme([], [], x)) for p, x in zip(params, t["l"])], c)
        f = {"k": "def", "n": n, "ps": [] if params is None else [params], "ann": [], "b": b}
        mine = [x for x in need if any(g in ps for y in x["l"] for g in gens(y))]
        ctx["need"] += [x for x in need if x not in mine]
        cs = []
        for x in mine:
            if x not in cs:
                cs.append(x)
        if ann:
            f["ann"] = [scheme(ps, cs, t)]
        self.cs = cs
        return f

    def group(self, n, scope, ctx, deep, local):
        """n functions and the scope with them"""
        r = self.r
        mutual = n > 1 and r.random() < 0.6
        fs, new, sigs = [], [], []
        shared = [self.name("T") for _ in range(r.choice([0, 1, 1, 2]))] if mutual else None
        for _ in range(n):
            ps = shared if mutual else [self.name("T") for _ in range(r.choice([0, 1, 1, 2, 2]))]
            params = [self.name("p") for _ in range(r.choice([1, 1, 2]))]
            if not local and r.random() < 0.1:
                params = None
            t = self.type(ctx["gs"] + ps, 2)
            if params is not None:
                t = fun(*[self.type(ctx["gs"] + ps + ps, 2) for _ in params], t)
                if mutual and r.random() < 0.7 and len(ps) and not all(g in gens(t) for g in ps):
                    t["l"][-1] = app("Pair", *[G(g) for g in (ps * 2)[:2]])
            sigs.append((self.name("f"), ps, params, t))
        if mutual:
            # one type parameter list for all: inside, and as far as the generator cares outside too
            inside = [(f, scheme([], [], t)) for f, _, _, t in sigs]
            for k, (f, ps, params, t) in enumerate(sigs):
                fs.append(self.func(f, t, ps, params, scope + inside, ctx, deep))
                new.append((f, scheme(ps, self.cs, t)))
                # make sure that it uses the next one
                g, _, qs, u = sigs[(k + 1) % n]
                c = {"gs": ctx["gs"] + ps, "own": ctx["own"], "need": ctx["need"], "ret": None}
                s = scope + ([(p, scheme([], [], x)) for p, x in zip(params, t["l"])] if params is not None else [])
                call = {"k": "u", "n": g} if qs is None else {"k": "a", "f": {"k": "u", "n": g}, "l": [self.expr(x, min(deep, 1), s, c) for x in u["l"][:-1]]}
                if r.random() < 0.8:
                    fs[-1]["b"] = {"k": "q", "l": [call, fs[-1]["b"]]}
            if r.random() < 0.15:
                k = r.randrange(n)
                f, ps, params, t = sigs[k]
                own = gens(t)
                fs[k]["ann"] = [scheme([g for g in ps if g in own], new[k][1]["s"], t)]
        else:
            for f, ps, params, t in sigs:
                ann = r.random() < 0.3
                inside = [(f, scheme([], [], t))] if r.random() < 0.4 else []
                fs.append(self.func(f, t, [g for g in ps if g in gens(t)] if ann else ps, params, scope + new + inside, ctx, deep, ann=ann))
                new.append((f, scheme(ps, self.cs, t)))
        r.shuffle(fs)
        return fs, scope + new

    def program(self, groups, deep):
        scope, fs = [], []
        for _ in range(groups):
            g, scope = self.group(self.r.choice([1, 1, 2, 3]), scope, {"gs": [], "own": [], "need": [], "ret": None}, deep, False)
            fs += g
        self.r.shuffle(fs)
        return fs


def nodes(e, acc, scope):
    """(expression node, names in scope)"""
    acc.append((e, scope))
    k = e["k"]
    if k == "a":
        for x in [e["f"]] + e["l"]:
            nodes(x, acc, scope)
    elif k == "i":
        for x in "cte":
            nodes(e[x], acc, scope)
    elif k == "w":
        nodes(e["c"], acc, scope)
        nodes(e["b"], acc, scope)
    elif k == "q":
        for x in e["l"]:
            nodes(x, acc, scope)
    elif k in ("t", "r"):
        nodes(e["b"], acc, scope)
    elif k == "m":
        nodes(e["t"], acc, scope)
        for c in e["cs"]:
            nodes(c["b"], acc, scope + bound(c["p"]))
    elif k == "l":
        s = scope + [f["n"] for f in e["fs"]]
        for f in e["fs"]:
            nodes(f["b"], acc, s + f["ps"][0])
        for v in e["vs"]:
            nodes(v["b"], acc, s)
        nodes(e["b"], acc, s + [v["n"] for v in e["vs"]])
    return acc


def bound(p):
    k = p["k"]
    return [p["n"]] if k == "v" else [p["n"]] + bound(p["p"]) if k == "as" else [b for x in p["l"][0] for b in bound(x)] if k == "d" and p["l"] else []


def all_nodes(fs):
    acc = []
    for f in fs:
        nodes(f["b"], acc, [g["n"] for g in fs] + (f["ps"][0] if f["ps"] else []))
    return acc


def defs(fs):
    out = list(fs)
    for e, _ in all_nodes(fs):
        if e["k"] == "l":
            out += e["fs"]
    return out


def put(e, new):
    new = copy.deepcopy(new)
    e.clear()
    e.update(new)


def mutate(rng, fs):
    """Change the program a little. Names stay bound, and unique."""
    ns = all_nodes(fs)
    k = rng.random()
    if k < 0.35:
        us = [(e, s) for e, s in ns if e["k"] == "u" and s]
        if us:
            e, s = rng.choice(us)
            e["n"] = rng.choice(s[-6:] if rng.random() < 0.6 else s)
    elif k < 0.5:
        e, s = rng.choice(ns)
        if s:
            put(e, {"k": "u", "n": rng.choice(s)})
    elif k < 0.6:
        e, s = rng.choice(ns)
        put(e, rng.choice([{"k": "n", "x": "7"}, {"k": "f", "x": "2.5"}, {"k": "c", "t": BOOL, "x": "#t"}, {"k": "c", "t": STR, "x": '"z"'}, {"k": "u", "n": "df"}, {"k": "u", "n": "none"}, {"k": "u", "n": "self"}]))
    elif k < 0.7:
        aps = [e for e, _ in ns if e["k"] == "a" and e["l"]]
        if aps:
            e = rng.choice(aps)
            e["l"].pop() if rng.random() < 0.4 else rng.shuffle(e["l"])
    elif k < 0.8:
        e, s = rng.choice(ns)
        f = rng.choice(["sh", "eq", "lt", "cv", "cv", "some", "max"])
        put(e, {"k": "a", "f": {"k": "u", "n": f}, "l": [copy.deepcopy(e)] * (2 if f in ("eq", "lt", "max") else 1)} if "l" != e["k"] != "m" and not any(x["k"] in "lm" for x, _ in nodes(e, [], [])) else e)
    else:
        ds = [f for f in defs(fs) if f["ann"]]
        if ds:
            f = rng.choice(ds)
            a = f["ann"][0]
            j = rng.random()
            if j < 0.3:
                f["ann"] = []
            elif j < 0.6 and a["s"]:
                a["s"].pop(rng.randrange(len(a["s"])))
            elif j < 0.8 and a["ps"]:
                p = a["ps"].pop(rng.randrange(len(a["ps"])))
                # written by others too: then it is unknown there, so only where it is not
                m = {p: G(rng.choice(a["ps"])) if a["ps"] and rng.random() < 0.5 else BOOL}
                rename(f, m)
            else:
                a["s"].append(con(rng.choice(["Sh", "Eq", "Ord"]), a["t"]["l"][0] if a["t"]["k"] == "a" else a["t"]))


def rename(x, m):
    """Replace type parameters everywhere below."""
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if isinstance(v, dict) and v.get("k") == "g" and v.get("g") in m and "g" in v:
                x[k] = m[v["g"]]
            else:
                rename(v, m)
    elif isinstance(x, list):
        for j, v in enumerate(x):
            if isinstance(v, dict) and v.get("k") == "g" and "g" in v and v["g"] in m:
                x[j] = m[v["g"]]
            else:
                rename(v, m)


def size(fs): return len(all_nodes(fs))


def annotated(fs):
    """Every type parameter that is written is one of an enclosing signature."""
    def types(e, own):
        k = e["k"]
        if k == "t" and not all(g in own for g in gens(e["ann"])):
            return False
        if k == "l":
            for f in e["fs"]:
                if not sig(f, own):
                    return False
            for v in e["vs"]:
                if v["ann"] and not all(g in own for g in gens(v["ann"][0])):
                    return False
        for c in children(e):
            if not types(c, own):
                return False
        return True

    def sig(f, own):
        if f["ann"]:
            a = f["ann"][0]
            own = own + a["ps"]
            if not all(g in own for t in [a["t"]] + [x for c in a["s"] for x in c["l"]] for g in gens(t)):
                return False
            return types(f["b"], own)
        return types(f["b"], own)
    return all(sig(f, []) for f in fs)


def children(e):
    k = e["k"]
    if k == "a":
        return [e["f"]] + e["l"]
    if k == "i":
        return [e["c"], e["t"], e["e"]]
    if k == "w":
        return [e["c"], e["b"]]
    if k == "q":
        return e["l"]
    if k in ("t", "r"):
        return [e["b"]]
    if k == "m":
        return [e["t"]] + [c["b"] for c in e["cs"]]
    if k == "l":
        return [v["b"] for v in e["vs"]] + [e["b"]]
    return []


def canon(body, cs):
    """A scheme up to the names of its parameters: type and constraints as text."""
    order = {}

    def go(t):
        if t["k"] == "g":
            return order.setdefault(t["g"], f"a{len(order)}")
        if t["k"] == "v":
            return order.setdefault(("v", t["v"]), f"a{len(order)}")
        if t["k"] == "a":
            return "(" + " ".join([go(t["f"])] + [go(x) for x in t["l"]]) + ")"
        return t["n"]
    b = go(body)
    return b, sorted("(" + " ".join([c["c"]] + [go(x) for x in c["l"]]) + ")" for c in cs)


def parse_scheme(s):
    """What the compiler shows: {(forall _0) (-> _0) (where (C _0))} as (parameters, type, constraints)."""
    toks = s.replace("(", " ( ").replace(")", " ) ").replace("{", " { ").replace("}", " } ").split()
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in "({":
            l = []
            while toks[pos] not in ")}":
                l.append(rd())
            pos += 1
            return l
        return t
    x = rd()
    if toks[0] != "{":
        x = [x]
    ps, cs = [], []
    if isinstance(x[0], list) and x[0][:1] == ["forall"]:
        ps, x = x[0][1:], x[1:]
    if len(x) > 1:
        cs = x[1][1:]

    def ty(v):
        if isinstance(v, str):
            return G(v) if v in ps else C(v)
        return app(v[0], *map(ty, v[1:])) if isinstance(v[0], str) and v[0] not in ps else {"k": "a", "f": ty(v[0]), "l": list(map(ty, v[1:]))}
    return ps, ty(x[0]), [con(c, []) if isinstance(c, str) else con(c[0], *map(ty, c[1:])) for c in cs]


class Loose:
    """Small programs without a type in mind: few constants, much sharing of variables."""

    def __init__(self, rng, world):
        self.r, self.w, self.n = rng, world, 0
        self.g = Gen(rng, world)
        self.classy = rng.random() < 0.4

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # scope: (name, arity or None); own: type parameters that may be written
    def expr(self, d, scope, own, ret=True):
        r = self.r
        k = r.random()
        vs = [n for n, a in scope if a is None]
        fs = [(n, a) for n, a in scope if a is not None]
        if d == 0 or k < 0.22:
            if vs and r.random() < 0.85:
                return {"k": "u", "n": r.choice(vs[-4:])}
            c = r.choice([{"k": "u", "n": "none"}, {"k": "u", "n": "nil"}, {"k": "a", "f": {"k": "u", "n": "bot"}, "l": []}, {"k": "c", "t": BOOL, "x": "#t"}, {"k": "c", "t": STR, "x": '"s"'}] +
                         ([{"k": "n", "x": "1"}, {"k": "u", "n": "df"}] if self.classy else []) + [{"k": "u", "n": n} for n, _ in fs[-2:]])
            return copy.deepcopy(c)
        sub = lambda s=scope: self.expr(d - 1, s, own)
        if k < 0.3 and own and vs and r.random() < 0.75:
            return self.escape(scope, vs, own)
        if k < 0.3:
            return self.capture(d, scope, own)
        if k < 0.42 and (fs or vs):
            if fs and r.random() < 0.85:
                n, a = r.choice(fs[-4:])
            else:
                n, a = r.choice(vs or [fs[0][0]]), r.choice([1, 1, 2])
            return {"k": "a", "f": {"k": "u", "n": n}, "l": [sub() for _ in range(a)]}
        if k < 0.6:
            n, a = r.choice([("some", 1), ("pair", 2), ("pair", 2), ("cons", 2), ("fn", 1)] + ([("sh", 1), ("eq", 2), ("lt", 2), ("cv", 1)] * 2 if self.classy else []))
            return {"k": "a", "f": {"k": "u", "n": n}, "l": [sub() for _ in range(a)]}
        if k < 0.65:
            return {"k": "i", "c": {"k": "c", "t": BOOL, "x": "#t"}, "t": sub(), "e": sub()}
        if k < 0.68:
            return {"k": "q", "l": [sub(), sub()]}
        if k < 0.72:
            return {"k": "t", "b": sub(), "ann": self.ann(own)}
        if k < 0.74:
            return {"k": "r", "b": sub()}
        if k < 0.8:
            m1, m2, m3 = self.name("m"), self.name("m"), self.name("m")
            p, b = r.choice([({"k": "d", "n": "some", "l": [[{"k": "v", "n": m1}]]}, [m1]), ({"k": "d", "n": "none", "l": []}, []),
                             ({"k": "d", "n": "cons", "l": [[{"k": "v", "n": m1}, {"k": "v", "n": m2}]]}, [m1, m2]),
                             ({"k": "as", "n": m1, "p": {"k": "d", "n": "some", "l": [[{"k": "_"}]]}}, [m1])])
            cs = [{"p": p, "b": self.expr(d - 1, scope + [(x, None) for x in b], own)}, {"p": {"k": "v", "n": m3}, "b": self.expr(d - 1, scope + [(m3, None)], own)}]
            if r.random() < 0.4:
                cs = [{"p": {"k": "d", "n": "pair", "l": [[{"k": "v", "n": m1}, {"k": "v", "n": m2}]]}, "b": self.expr(d - 1, scope + [(m1, None), (m2, None)], own)}]
            return {"k": "m", "t": sub(), "cs": cs}
        fs = self.funs(r.choice([0, 1, 1, 1, 2, 2, 3]), d - 1, scope, own, "g")
        inner = scope + [(f["n"], len(f["ps"][0])) for f in fs]
        vs = [{"k": "def", "n": self.name("v"), "ann": [self.ann(own)] if r.random() < 0.1 else [], "b": self.expr(d - 1, inner, own)} for _ in range(r.choice([0, 1, 1, 2] if fs else [1, 2]))]
        return self.g.let(fs, vs, self.expr(d - 1 if r.random() < 0.5 else d, inner + [(v["n"], None) for v in vs], own) if self.n < 40 else sub())

    def capture(self, d, scope, own):
        """A value whose type is open, captured by a local function that is used twice."""
        r = self.r
        v, g, y = self.name("v"), self.name("g"), self.name("y")
        use = lambda n: {"k": "u", "n": n}
        init = r.choice([use("none"), use("nil"), use("df"), use("self"), use("bot"), {"k": "n", "x": "1"}, use("some"), self.expr(0, scope, own)])
        b = self.expr(min(d - 1, 1), scope + [(v, None), (y, None)], own)
        b = r.choice([use(v), {"k": "a", "f": use("pair"), "l": [use(v), use(y)]}, b, {"k": "q", "l": [b, use(v)]}])
        fs = [{"k": "def", "n": g, "ps": [[y]], "ann": [], "b": b}]
        call = lambda: {"k": "a", "f": use(g), "l": [r.choice([{"k": "c", "t": BOOL, "x": "#t"}, {"k": "c", "t": STR, "x": '"q"'}, use(v)])]}
        some = lambda e: r.choice([e, e, e, {"k": "t", "b": e, "ann": self.ann(own)}])
        out = self.g.let(fs, [], {"k": "a", "f": use("pair"), "l": [some(r.choice([use(v), call()])), some(call())]})
        if r.random() < 0.6:
            return self.g.let([], [{"k": "def", "n": v, "ann": [], "b": init}], out)
        m = self.name("m")
        p = r.choice([{"k": "v", "n": v}, {"k": "as", "n": v, "p": {"k": "_"}}, {"k": "d", "n": "some", "l": [[{"k": "v", "n": v}]]}])
        cs = [{"p": p, "b": out}] + ([{"p": {"k": "v", "n": m}, "b": {"k": "a", "f": use("bot"), "l": []}}] if p["k"] == "d" else [])
        return {"k": "m", "t": init, "cs": cs}

    def escape(self, scope, vs, own):
        """Something of a type that is known here only next to something of an unknown type."""
        r = self.r
        g = own[-1] if r.random() < 0.7 else r.choice(own)
        use = lambda n: {"k": "u", "n": n}
        x = use(r.choice(vs[:3]))
        if r.random() < 0.5:
            return {"k": "i", "c": {"k": "c", "t": BOOL, "x": "#t"}, "t": x, "e": {"k": "t", "b": r.choice([use("df"), {"k": "a", "f": use("bot"), "l": []}]), "ann": G(g)}}
        h, y = self.name("h"), self.name("y")
        t = G(g)
        return self.g.let([{"k": "def", "n": h, "ps": [[y]], "ann": [scheme([], [], fun(t, t))], "b": use(y)}], [], {"k": "a", "f": use(h), "l": [x]})

    def ann(self, own):
        r = self.r
        leaf = lambda: G(r.choice(own)) if own and r.random() < 0.75 else r.choice([BOOL, STR])
        return r.choice([leaf, leaf, lambda: app("Opt", leaf()), lambda: app("Pair", leaf(), leaf()), lambda: fun(leaf(), leaf())])()

    def funs(self, n, d, scope, own, p):
        r = self.r
        sigs = [(self.name(p), [self.name("x") for _ in range(r.choice([1, 1, 2]))]) for _ in range(n)]
        inner = scope + [(f, len(ps)) for f, ps in sigs]
        out = []
        for f, ps in sigs:
            a, mine = [], own
            if r.random() < 0.3:
                new = [self.name("T") for _ in range(r.choice([0, 1, 1, 2]))]
                mine = own + new
                leaf = lambda: G(r.choice(new if new and r.random() < 0.6 else mine)) if mine and r.random() < 0.9 else r.choice([BOOL, STR])
                t = fun(*[leaf() if r.random() < 0.75 else self.ann(mine) for _ in range(len(ps) + 1)])
                if r.random() < 0.5:
                    t["l"][-1] = r.choice(t["l"][:-1])
                cs = [con(r.choice(["Sh", "Eq", "Ord"]), G(g)) for g in mine if self.classy and r.random() < 0.5]
                a = [scheme(new, cs, t)]
            if self.n > 60:
                d = 0
            out.append({"k": "def", "n": f, "ps": [ps], "ann": a, "b": self.expr(d, inner + [(x, None) for x in ps], mine)})
        return out

    def program(self):
        while True:
            self.n = 0
            fs = self.funs(self.r.choice([1, 1, 2, 3]), self.r.choice([1, 2, 3, 3, 4]), [], [], "f")
            if 3 < size(fs) < 90:
                return fs
