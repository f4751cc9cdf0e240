"""Random worlds of macros for Macro.tla, and their llrl source."""
import re

# ------------------------------------------------------------------ trees
def sym(s): return {"k": "sym", "s": s}
def lst(*l): return {"k": "list", "l": list(l)}
def call(f, *a): return lst(sym(f), *a)


def atom(c, t, src, v=0): return {"k": "atom", "c": c, "t": t, "v": v, "_": src}


ESC = {"\t": "\\t", "\r": "\\r", "\n": "\\n", '"': '\\"', "\\": "\\\\"}


def num(v, sign=False):
    return atom("int", ("s" if v < 0 else "u") + str(v), ("+" if sign and v >= 0 else "") + str(v), v if abs(v) < 2**31 else 0)


def boolean(b): return atom("bool", str(int(b)), "#t" if b else "#f", int(b))
def char(ch): return atom("chr", str(ord(ch)), "#\\" + ESC.get(ch, ch) if ch != '"' else '#\\"')
def string(s): return atom("str", "".join(f"{b}." for b in s.encode()), '"' + "".join(ESC.get(c, c) for c in s) + '"')
def fp(x): return atom("fp", f"{x:g}", repr(x))


def onto(hs, t):
    if not hs:
        return t
    if t["k"] == "list":
        return lst(*hs, *t["l"])
    if t["k"] == "dot":
        return {"k": "dot", "l": hs + t["l"], "t": t["t"]}
    return {"k": "dot", "l": hs, "t": t}


def enc(m):
    return "".join(ch if ch.isascii() else "{%x}" % ord(ch) for ch in m)


def dec(m):
    return re.sub(r"\{([0-9a-f]+)\}", lambda x: chr(int(x[1], 16)), m)


def strip(x):
    """what the specification gets to see"""
    if isinstance(x, dict):
        if x.get("k") == "err":
            return {"k": "err", "m": enc(x["m"])}
        return {k: strip(v) for k, v in x.items() if k != "_"}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


def text(t):
    k = t["k"]
    if k == "sym":
        return t["s"]
    if k == "atom":
        return t["_"]
    if k == "list":
        return "(" + " ".join(map(text, t["l"])) + ")"
    if k == "dot":
        return "(" + " ".join(map(text, t["l"])) + " . " + text(t["t"]) + ")"
    if k == "unq":
        return "," + ev(t["e"])
    if k == "spl":
        return ",@" + ev(t["e"])
    raise ValueError(t)


SYMS = ["a", "b", "foo", "if", "let", "x1", "+", "<=>", "a/b", "...", "match", "quote-not", "-", "n"]
INTS = [0, 1, 2, 7, -1, -7, 255, 256, 65535, 2**31 - 1, 2**31, -2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, -2**63]
STRS = ["", "a", "b", "ab", "\n", 'q"', "\\", "é", "あ", "\U0001F600", "a\x00b", "\x00", "x" * 40]
CHARS = ["a", "b", "\n", "é", "あ", "\U0001F600", "\U0010FFFF", "\x01"]
FPS = [1.5, -2.25, 0.125, 1000.5, 3.0]


def data(rng, depth, size=4):
    k = rng.random()
    if depth and k < 0.5:
        items = [data(rng, depth - 1, size) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, size]))]
        if items and rng.random() < 0.15:
            return onto(items, data(rng, 0))
        return lst(*items)
    k = rng.random()
    if k < 0.35:
        return sym(rng.choice(SYMS))
    if k < 0.6:
        return num(rng.choice(INTS), rng.random() < 0.15) if rng.random() < 0.6 else num(rng.randint(0, 9))
    if k < 0.72:
        return string(rng.choice(STRS))
    if k < 0.82:
        return char(rng.choice(CHARS))
    if k < 0.9:
        return boolean(rng.random() < 0.5)
    if k < 0.96:
        return fp(rng.choice(FPS))
    return lst()


# -------------------------------------------- the language macros are written in
def var(n): return {"k": "var", "n": n}
def cap(s): return {"k": "cap", "s": s}
def unq(e): return {"k": "unq", "e": e}
def spl(e): return {"k": "spl", "e": e}
def qq(t): return {"k": "qq", "t": t}
def okb(e): return {"k": "ok", "e": e}
def errb(m): return {"k": "err", "m": m}
def matchb(e, *cs): return {"k": "match", "e": e, "cs": [{"p": p, "b": b} for p, b in cs]}


WILD = {"k": "_"}
NILP = {"k": "nil"}
def pvar(n): return {"k": "var", "n": n}
def plit(t): return {"k": "lit", "t": t}
def pis(n, c): return {"k": "is", "n": n, "c": c}
def pcons(h, t): return {"k": "cons", "h": h, "t": t}


def plist(*ps, tail=None):
    r = tail or NILP
    for p in reversed(ps):
        r = pcons(p, r)
    return r


IS = {"int": "(s:integer _ _)", "sym": "(s:symbol _)", "cons": "(s:cons _ _)", "str": "(s:string _)", "bool": "(s:bool _)", "chr": "(s:char _)",
      "fp": "(s:fpnumber _)", "use": "(s:use _)"}


def pat(p, alt=False):
    """the s/match pattern"""
    k = p["k"]
    if k == "_":
        return "_"
    if k == "var":
        return "," + p["n"]
    if k == "is":
        return f",(let {p['n']} {IS[p['c']]})"
    if k == "lit":
        return text(p["t"])
    if k == "nil":
        return "()"
    items = []
    while p["k"] == "cons":
        items.append(pat(p["h"], alt))
        p = p["t"]
    if p["k"] == "nil":
        return "(" + " ".join(items) + ")"
    if p["k"] in ("var", "is") and alt:
        return "(" + " ".join(items) + " ,@" + pat(p)[1:] + ")"
    return "(" + " ".join(items) + " . " + pat(p) + ")"


def ev(e):
    k = e["k"]
    if k == "var":
        return e["n"]
    if k == "tree":
        return "'" + text(e["t"])
    if k == "cap":
        return "\\" + e["s"]
    if k == "gensym":
        return "(gensym)"
    if k == "qq":
        return "`" + text(e["t"])
    if k == "call":
        return "(" + " ".join([e["f"]] + [ev(a) for a in e["as"]]) + ")!"
    if k == "reverse":
        return f"(s/reverse {ev(e['e'])})!"
    if k == "append":
        return f"(s/append {ev(e['a'])} {ev(e['b'])})!"
    if k == "length":
        return f"(s:integer #f (s/length {ev(e['e'])})!)"
    if k == "traverse":
        return f"(s/traverse {e['f']} {ev(e['e'])})!"
    if k in ("foldl", "foldr", "zip"):
        # the function is bound before the arguments are computed: it cannot fail
        return f"(let ([(fold-f {e['x']} {e['y']}) `{text(e['t'])}]) (s/{k} fold-f {ev(e['a'])} {ev(e['b'])})!)"
    raise ValueError(e)


def body(b, ind, rng):
    k = b["k"]
    if k == "ok":
        return f"(ok {ev(b['e'])})"
    if k == "err":
        return f"(err {string(b['m'])['_']})"
    if k == "let":
        return f"(let ([{b['n']} {ev(b['e'])}])\n{ind}{body(b['b'], ind + '  ', rng)})"
    if k == "tail":
        return "(" + " ".join([b["f"]] + [ev(a) for a in b["as"]]) + ")"
    return f"(s/match {ev(b['e'])}" + "".join(
        f"\n{ind}[{pat(c['p'], rng.random() < 0.5)}\n{ind}  {body(c['b'], ind + '    ', rng)}]" for c in b["cs"]) + ")"


# ----------------------------------------------------------- data transformers
class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def small(self):
        rng = self.rng
        return rng.choice([sym(rng.choice(SYMS)), num(rng.randint(-3, 9)), string(rng.choice(STRS)), boolean(True), char("a"), lst()])

    def pattern(self, vs, depth, refutable=True):
        """some pattern; adds its variables to vs"""
        rng = self.rng
        k = rng.random()
        if depth and k < 0.4:
            ps = [self.pattern(vs, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
            r = rng.random()
            if r < 0.5:
                return plist(*ps)
            n = self.fresh()
            vs.append(n)
            return plist(*ps, tail=pvar(n) if r < 0.9 else pis(n, rng.choice(["cons", "sym", "int"])))
        if k < 0.75:
            n = self.fresh()
            vs.append(n)
            return pvar(n)
        if k < 0.85:
            n = self.fresh()
            vs.append(n)
            return pis(n, rng.choice(list(IS)))
        if k < 0.92:
            return WILD
        return plit(self.small()) if rng.random() < 0.7 else NILP

    def refutable(self, vs):
        while True:
            n, vs2 = self.n, list(vs)
            p = self.pattern(vs2, 2)
            if p["k"] not in ("_", "var") and p != plit(lst()):
                vs[:] = vs2
                return p

    def template(self, mod, vs, depth, plain=False, lower=()):
        rng = self.rng
        k = rng.random()
        if depth and k < 0.55:
            items = []
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
                if not plain and rng.random() < 0.25:
                    items.append(spl(self.expr(mod, vs, depth - 1, lower)))
                else:
                    items.append(self.template(mod, vs, depth - 1, plain, lower))
            if items and items[-1]["k"] != "spl" and rng.random() < 0.2:
                t = unq(var(rng.choice(vs))) if vs and rng.random() < 0.7 else sym("tail")
                return {"k": "dot", "l": items, "t": t}
            return lst(*items)
        if vs and k < 0.85:
            return unq(var(rng.choice(vs)) if plain or rng.random() < 0.7 else self.expr(mod, vs, depth - 1 if depth else 0, lower))
        if k < 0.9:
            return unq(cap(rng.choice(mod["caps"])))
        return self.small()

    def expr(self, mod, vs, depth, lower=()):
        rng = self.rng
        if depth <= 0:
            return var(rng.choice(vs)) if vs and rng.random() < 0.8 else {"k": "tree", "t": data(rng, 1)} if rng.random() < 0.7 else cap(rng.choice(mod["caps"]))
        k = rng.choice(["qq"] * 5 + ["var"] * 3 + ["call"] * (3 if lower else 0) + ["reverse", "append", "length", "traverse", "foldl", "foldr", "zip", "tree", "cap", "gensym"])
        if k == "gensym":
            return {"k": k}
        if k == "qq":
            return qq(self.template(mod, vs, depth, lower=lower))
        if k == "var" and vs:
            return var(rng.choice(vs))
        if k == "call" and lower:
            f = rng.choice(lower)
            return {"k": "call", "f": f["n"], "as": [self.expr(mod, vs, depth - 1, lower) for _ in f["ps"]]}
        if k in ("reverse", "length"):
            return {"k": k, "e": self.expr(mod, vs, depth - 1, lower)}
        if k == "append":
            return {"k": k, "a": self.expr(mod, vs, depth - 1, lower), "b": self.expr(mod, vs, depth - 1, lower)}
        if k == "traverse":
            fs = [f for f in lower if len(f["ps"]) == 1]
            if fs:
                return {"k": k, "f": rng.choice(fs)["n"], "e": self.expr(mod, vs, depth - 1, lower)}
        if k in ("foldl", "foldr", "zip"):
            x, y = self.fresh(), self.fresh()
            return {"k": k, "x": x, "y": y, "t": self.template(mod, vs[:2] + [x, y, x, y], 1, plain=True),
                    "a": self.expr(mod, vs, depth - 1, lower), "b": self.expr(mod, vs, depth - 1, lower)}
        if k == "cap":
            return cap(rng.choice(mod["caps"]))
        return {"k": "tree", "t": data(rng, 2)}

    def result(self, mod, vs, depth, lower, selff=None):
        """a body"""
        rng = self.rng
        k = rng.random()
        if depth and k < 0.25 and vs:
            vs2 = list(vs)
            p = self.refutable(vs2)
            return matchb(var(rng.choice(vs)), (p, self.result(mod, vs2, depth - 1, lower, selff)), (WILD, self.result(mod, vs, 0, lower, selff)))
        if depth and k < 0.4:
            n = self.fresh()
            return {"k": "let", "n": n, "e": self.expr(mod, vs, 2, lower), "b": self.result(mod, vs + [n], depth - 1, lower, selff)}
        if k < 0.46:
            return errb(rng.choice(["no", "bad form", "expected: (m ...)", "é あ", ""]) + f" {rng.randrange(100)}")
        if k < 0.55 and lower:
            f = rng.choice(lower)
            return {"k": "tail", "f": f["n"], "as": [self.expr(mod, vs, 1, lower) for _ in f["ps"]]}
        return okb(self.expr(mod, vs, rng.choice([1, 2, 3]), lower))

    def helper(self, mod, name, lower):
        rng = self.rng
        ps = [self.fresh("p") for _ in range(rng.choice([1, 1, 2]))]
        me = {"n": name, "ps": ps}
        if rng.random() < 0.6:                            # structural recursion
            h, t = self.fresh(), self.fresh()
            vs = ps[1:] + [h]
            again = {"k": "call", "f": name, "as": [var(t)] + [self.expr(mod, vs, 1, ()) for _ in ps[1:]]}
            rec = rng.choice([okb(qq(lst(self.template(mod, vs, 1, lower=lower), spl(again)))), okb(qq(lst(spl(again), self.template(mod, vs, 1, True)))),
                              {"k": "tail", "f": name, "as": again["as"]}, okb(again), {"k": "let", "n": (z := self.fresh()), "e": again, "b": self.result(mod, vs + [z], 1, lower)}])
            cs = [(pcons(pvar(h), pvar(t)), rec)]
            if rng.random() < 0.6:
                cs.append((NILP, self.result(mod, ps[1:], 1, lower)))
            if rng.random() < 0.3:
                cs.insert(0, (pcons(plit(self.small_lit()), pvar(t2 := self.fresh())), self.result(mod, ps[1:] + [t2], 1, lower)))
            me["b"] = matchb(var(ps[0]), *cs, (WILD, self.result(mod, ps, 1, lower)))
        else:
            me["b"] = self.result(mod, ps, 2, lower)
        return me

    def small_lit(self):
        while True:
            t = self.small()
            if t["k"] == "atom" or t["k"] == "sym":
                return t

    def transformer(self, mod, lower):
        """the body of a macro on arbitrary forms, over the variable s"""
        rng = self.rng
        cs, tags = [], []
        for _ in range(rng.choice([1, 2, 3])):
            tag = self.small_lit()
            if tag["_" if "_" in tag else "s"] in tags:
                continue
            tags.append(tag["_" if "_" in tag else "s"])
            vs = []
            ps = [self.pattern(vs, 2) for _ in range(rng.choice([0, 1, 2]))]
            tail = None
            if rng.random() < 0.6:
                vs.append(self.fresh())
                tail = pvar(vs[-1])
            cs.append((plist(WILD, plit(tag), *ps, tail=tail), self.result(mod, vs + ["s"] * (rng.random() < 0.2), 2, lower)))
        self.tags = tags
        vs = []
        h, t, r = self.fresh(), self.fresh(), self.fresh()
        if rng.random() < 0.7:
            cs.append((pcons(WILD, pcons(pcons(pvar(h), pvar(t)), pvar(r))), self.result(mod, [h, t, r], 2, lower)))
        if rng.random() < 0.7:
            x, r2 = self.fresh(), self.fresh()
            cs.append((pcons(WILD, pcons(pvar(x), pvar(r2))), self.result(mod, [x, r2], 2, lower)))
        return matchb(var("s"), *cs, (WILD, self.result(mod, ["s"], 1, lower) if rng.random() < 0.5 else errb("no clause")))

    # ------------------------------------------------ macros that write programs
    def core(self, vs, env, depth, mod, macros):
        """a template of a number; vs: macro variables holding expressions, env: names bound in the template"""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.12:
            k = rng.random()
            if vs and k < 0.6:
                return unq(var(rng.choice(vs)))
            if env and k < 0.8:
                return rng.choice(env)
            return num(rng.randint(-5, 9))
        sub = lambda e=env: self.core(vs, e, depth - 1, mod, macros)
        k = rng.choice(["add", "sub", "mul", "if", "let", "let", "fun", "gen", "begin", "match", "h", "caph", "macro", "macro", "out", "quote", "kwd"])
        if k in ("add", "sub", "mul"):
            return call(k, sub(), sub()) if rng.random() < 0.5 else lst(unq(cap(k)), sub(), sub())
        if k == "if":
            return call("if", call("lt", sub(), sub()), sub(), sub())
        if k == "let":
            n = rng.choice(["t", "u", "w"])
            return call("let", lst(lst(sym(n), sub())), sub(env + [sym(n)]))
        if k == "fun":
            n = rng.choice(["k", "j"])
            p = rng.choice(["t", "u", "z"])
            f = lst(sym(n), sym(p))
            return call("let", lst(lst(f, sub(env + [sym(p)]))), call("add", call(n, sub()), call(n, num(rng.randint(0, 3)))))
        if k == "begin":
            return call("begin", call("out", sub()), sub()) if rng.random() < 0.7 else call("begin", sub())
        if k == "match":
            n = rng.choice(["t", "u"])
            cs = [lst(num(rng.choice([0, 1, 2])), sub())] + [lst(call("let", sym(n)), sub(env + [sym(n)])) if rng.random() < 0.6 else lst(sym("_"), sub())]
            return call("match", sub(), *cs)
        if k == "h":
            return call("h", sub())
        if k == "caph":
            return lst(unq(cap("h")), sub())
        if k == "macro" and macros:
            m = rng.choice(macros)
            return lst(unq(cap(m["n"])) if rng.random() < 0.6 else sym(m["n"]), *m["args"](sub))
        if k == "out":
            return call("out", sub())
        if k == "quote":
            return call("tree", call("quote", lst(*[unq(var(v)) for v in vs[:2]], num(1))))
        return sub()

    def writer(self, mod, name, macros):
        """a macro from expressions to an expression; returns its entry"""
        rng = self.rng
        kind = rng.choice(["plain", "plain", "gensym", "rest", "keyword", "compute", "swap", "quotes", "binder", "let*"])
        x, y, r = self.fresh(), self.fresh(), self.fresh()
        c = lambda vs, env=(), d=3: qq(self.core(vs, list(env), d, mod, macros))
        bad = (WILD, errb(f"bad use of {name}"))
        me = rng.choice([cap(name), None])
        mine = unq(cap(name)) if me else sym(name)
        if kind == "plain":
            n = rng.choice([1, 2, 3])
            vs = [x, y, r][:n]
            return {"b": matchb(var("s"), (plist(WILD, *map(pvar, vs)), okb(c(vs))), bad), "args": lambda g, n=n: [g() for _ in range(n)]}
        if kind == "gensym":
            g = self.fresh("g")
            t = {"k": "let", "n": g, "e": {"k": "gensym"}, "b": okb(qq(call("let", lst(lst(unq(var(g)), unq(var(x)))), self.core([x, y, g, g], [], 2, mod, macros))))}
            return {"b": matchb(var("s"), (plist(WILD, pvar(x), pvar(y)), t), bad), "args": lambda g: [g(), g()]}
        if kind == "rest":
            again = lst(mine, unq(var(y)), spl(var(r)))
            t = rng.choice([call("add", unq(var(x)), again), call("let", lst(lst(sym("t"), unq(var(x)))), call("sub", again, sym("t"))), call("begin", call("out", unq(var(x))), again)])
            return {"b": matchb(var("s"), (plist(WILD, pvar(x)), okb(c([x]))), (plist(WILD, pvar(x), pvar(y), tail=pvar(r)), okb(qq(t))), bad),
                    "args": lambda g: [g() for _ in range(rng.choice([1, 2, 3, 4]))]}
        if kind == "keyword":
            return {"b": matchb(var("s"), (plist(WILD, plit(sym("neg")), pvar(x)), okb(qq(call("sub", num(0), unq(var(x)))))),
                                (plist(WILD, plit(num(1)), pvar(x)), okb(c([x]))), (plist(WILD, pvar(x), pvar(y)), okb(c([x, y]))), bad),
                    "args": lambda g: [rng.choice([sym("neg"), num(1), g()]), g()]}
        if kind == "compute":                             # counts its arguments, or reverses them
            t = rng.choice([qq(call("add", unq({"k": "length", "e": var(r)}), unq(var(x)))),
                            {"k": "foldl", "x": y + "a", "y": y + "b", "t": call("sub", unq(var(y + "a")), unq(var(y + "b"))), "a": var(x), "b": var(r)},
                            {"k": "foldr", "x": y + "a", "y": y + "b", "t": call("sub", unq(var(y + "a")), unq(var(y + "b"))), "a": var(x), "b": var(r)},
                            qq(call("begin", spl({"k": "reverse", "e": var("s0")}) if False else unq(var(x)), unq(var(x))))])
            return {"b": matchb(var("s"), (plist(WILD, pvar(x), tail=pvar(r)), okb(t)), bad), "args": lambda g: [g() for _ in range(rng.choice([1, 2, 3]))]}
        if kind == "swap":
            return {"b": matchb(var("s"), (plist(WILD, pvar(x), pvar(y)), okb(qq(call("let", lst(lst(sym("t"), unq(var(x)))), call("sub", unq(var(y)), sym("t")))))), bad),
                    "args": lambda g: [g(), g()]}
        if kind == "quotes":
            return {"b": matchb(var("s"), (plist(WILD, tail=pvar(r)), okb(qq(call("tree", call("quote", lst(unq(var(r)), unq(cap("h")), spl(var(r)))))))), bad),
                    "args": lambda g: [g() for _ in range(rng.choice([0, 1, 2]))]}
        if kind == "binder":
            return {"b": matchb(var("s"), (plist(WILD, pis(x, "sym"), pvar(y), pvar(r)), okb(qq(call("let", lst(lst(unq(var(x)), unq(var(y)))), unq(var(r)))))), bad),
                    "args": lambda g, n=rng.choice(["t", "u", "q"]): [sym(n), g(), g()]}
        return {"b": matchb(var("s"), (plist(WILD, NILP, pvar(r)), okb(var(r))),
                            (plist(WILD, pcons(plist(pis(x, "sym"), pvar(y)), pvar(x + "z")), pvar(r)),
                             okb(qq(call("let", lst(lst(unq(var(x)), unq(var(y)))), lst(mine, unq(var(x + "z")), unq(var(r))))))), bad),
                "args": lambda g: [lst(*[lst(sym(rng.choice(["t", "u"])), g()) for _ in range(rng.choice([0, 1, 2]))]), g()]}

    # ------------------------------------------------------------------ worlds
    def world(self):
        rng = self.rng
        prims = {p: {"m": "lib", "s": p} for p in ("add", "sub", "mul", "lt", "out", "tree", "I64")}
        mods, writers, trans = {}, [], []
        main = dict(prims)
        for mi, mn in enumerate(["m1", "m2"]):
            scope = dict(prims)
            if mn == "m2":
                for w in writers:
                    scope[w["n"]] = {"m": "m1", "s": w["n"]}
            scope["h"] = {"m": mn, "s": "h"}
            mod = {"fns": {}, "macros": {}, "scope": scope, "caps": ["h", "add", "I64"] + [w["n"] for w in writers]}
            mod["defs"] = {"h": {"ps": ["x"], "e": call("add", call("mul", sym("x"), num(10)), num(mi + 1))}}
            lower = []
            for j in range(rng.choice([2, 3])):
                f = self.helper(mod, f"{mn}-f{j}", lower)
                lower.append(f)
                mod["fns"][f["n"]] = {"ps": f["ps"], "b": f["b"]}
                scope[f["n"]] = {"m": mn, "s": f["n"]}
            for j in range(3):
                n = f"{mn}-a{j}"
                b = self.transformer(mod, lower)
                mod["macros"][n] = {"p": "s", "b": b}
                trans.append((mn, n, list(self.tags)))
                scope[n] = {"m": mn, "s": n}
                main[n] = {"m": mn, "s": n}
            ws = []
            for j in range(4):
                n = f"{mn}-b{j}"
                scope[n] = {"m": mn, "s": n}
                w = self.writer(mod, n, writers + ws)
                w["n"] = n
                ws.append(w)
                mod["macros"][n] = {"p": "s", "b": w["b"]}
                main[n] = {"m": mn, "s": n}
            writers = writers + ws
            fixed = {
                f"{mn}-pat": matchb(var("s"), (plist(WILD, pis("n", "sym")), okb(qq(call("let", unq(var("n")))))), (plist(WILD, pvar("n")), okb(var("n"))), (WILD, errb("bad pattern"))),
                f"{mn}-arm": matchb(var("s"), (plist(WILD, pvar("p"), pvar("e")), okb(qq(lst(unq(var("p")), lst(unq(cap("h")), unq(var("e"))))))), (WILD, errb("bad arm"))),
                f"{mn}-ty": okb(qq(unq(cap("I64"))) if False else cap("I64")),
                f"{mn}-id": matchb(var("s"), (plist(WILD, pvar("x")), okb(var("x"))), (WILD, errb("one argument"))),
                f"{mn}-def": matchb(var("s"), (plist(WILD, pis("f", "sym"), pvar("ps"), tail=pvar("es")),
                                    okb(qq(call("function", call("annotate", lst(unq(var("f")), spl(var("ps"))),
                                                                 lst(sym("->"), spl({"k": "traverse", "f": f"{mn}-i64", "e": var("ps")}), unq(cap("I64")))), spl(var("es")))))),
                                    (WILD, errb("bad definition"))),
                f"{mn}-both": matchb(var("s"), (plist(WILD, tail=pvar("ds")), okb(qq(call("begin", spl(var("ds")))))), (WILD, errb("no"))),
                f"{mn}-rev": matchb(var("s"), (plist(WILD, tail=pvar("ds")), okb(qq(call("begin", spl({"k": "reverse", "e": var("ds")}))))), (WILD, errb("no"))),
            }
            mod["fns"][f"{mn}-i64"] = {"ps": ["x"], "b": okb(cap("I64"))}
            scope[f"{mn}-i64"] = {"m": mn, "s": f"{mn}-i64"}
            for n, b in fixed.items():
                mod["macros"][n] = {"p": "s", "b": b}
                scope[n] = {"m": mn, "s": n}
                main[n] = {"m": mn, "s": n}
            mods[mn] = mod
        main["h"] = {"m": "main", "s": "h"}
        main["mm"] = {"m": "main", "s": "mm"}
        mods["main"] = {"fns": {}, "macros": {"mm": {"p": "s", "b": okb({"k": "tree", "t": num(1)})}}, "scope": main,
                        "defs": {"h": {"ps": ["x"], "e": call("sub", sym("x"), num(3))}}}
        self.writers, self.trans = writers, trans
        return mods

    # ------------------------------------------------------------------- tasks
    def form(self, tags, proper):
        rng = self.rng
        args = [data(rng, 3) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if tags and rng.random() < 0.6:
            t = self.tagtree(rng.choice(tags))
            args.insert(0, self.twin(t) if rng.random() < 0.15 else t)
        t = lst(*args)
        if args and not proper and rng.random() < 0.1:
            t = onto(args, data(rng, 0))
        return t

    def twin(self, t):
        """a tree easily confused with t"""
        rng = self.rng
        if t["k"] == "sym":
            return string(t["s"])
        if t["c"] == "int":
            return num(t["v"] + 2**64) if t["v"] < 0 else rng.choice([num(t["v"] + 256), fp(float(t["v"])), string(str(t["v"])), char(chr(48 + t["v"]))])
        if t["c"] == "bool":
            return num(t["v"])
        if t["c"] == "chr":
            return rng.choice([string(t["_"][2:]), sym("a"), num(int(t["t"]))])
        return rng.choice([char("a"), sym("a"), string("a\x00")])

    def tagtree(self, s):
        for t in [num(v) for v in range(-3, 10)] + [string(x) for x in STRS] + [boolean(True), char("a")]:
            if t["_"] == s:
                return t
        return sym(s)

    def use(self, env, depth, bad=0.0):
        """an expression of main"""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.1:
            return rng.choice(env) if env and rng.random() < 0.6 else num(rng.randint(-4, 9))
        if bad and rng.random() < bad:
            return rng.choice([call("mm", num(1)), call("m1-id"), call("m2-id", num(1), num(2)), call("m1-arm", num(1))])
        sub = lambda e=None: self.use(env if e is None else e, depth - 1, bad)
        k = rng.choice(["w"] * 8 + ["add", "let", "if", "match", "fun", "h", "tree", "ann", "id"])
        if k == "w":
            w = rng.choice(self.writers)
            return call(w["n"], *w["args"](sub))
        if k == "add":
            return call(rng.choice(["add", "sub", "mul"]), sub(), sub())
        if k == "let":
            n = sym(rng.choice(["t", "u", "w"]))
            return call("let", lst(lst(n, sub())), sub(env + [n]))
        if k == "fun":
            n, p = sym("k"), sym(rng.choice(["t", "z"]))
            return call("let", lst(lst(lst(n, p), sub(env + [p]))), call("k", sub()))
        if k == "if":
            return call("if", call("lt", sub(), sub()), sub(), sub())
        if k == "match":
            n = sym(rng.choice(["t", "u"]))
            mk = lambda a: call(rng.choice(["m1-pat", "m2-pat"]), a) if rng.random() < 0.6 else a if a["k"] != "sym" else call("let", a)
            arm = lambda p, e: call(rng.choice(["m1-arm", "m2-arm"]), p, e) if rng.random() < 0.4 else lst(p, e)
            return call("match", sub(), arm(mk(num(rng.randint(0, 3))), sub()), arm(mk(n), sub(env + [n])))
        if k == "h":
            return call("h", sub())
        if k == "tree":
            return call("tree", call("quote", lst(sym(rng.choice(self.writers)["n"]), data(rng, 1))))
        if k == "ann":
            return call("annotate", sub(), call(rng.choice(["m1-ty", "m2-ty"])))
        return call(rng.choice(["m1-id", "m2-id"]), sub())

    def program(self, j, bad):
        rng = self.rng
        b = 0.08 if bad else 0
        decls = []
        fn = f"f{j}"
        ps = [sym(p) for p in rng.sample(["t", "u", "w"], rng.choice([1, 2]))]
        d = rng.choice(["m1-def", "m2-def"])
        if rng.random() < 0.5:
            decls.append(call(d, sym(fn), lst(*ps), *[self.use(ps, 2, b) for _ in range(rng.choice([1, 2]))]))
        else:
            decls.append(call("function", call("annotate", lst(sym(fn), *ps), call("->", *[sym("I64")] * (len(ps) + 1))), self.use(ps, 2, b)))
        for _ in range(rng.choice([1, 2])):
            decls.append(call("out", self.use([], 3, b) if rng.random() < 0.6 else call(fn, *[self.use([], 1, b) for _ in ps])))
        if rng.random() < 0.4:
            decls = [call(rng.choice(["m1-both", "m2-both", "begin"] + ["m1-rev"]), *decls)]
        return decls


LIB = '''
(import "std/box" _)
(export add sub mul lt out tree dump show)
(function (add a b) {(-> I64 I64 I64)} (+ a b))
(function (sub a b) {(-> I64 I64 I64)} (- a b))
(function (mul a b) {(-> I64 I64 I64)} (* (wrap a) (wrap b)))
(function (wrap a) {(-> I64 I64)} (let ([r (- a (* 1000 (/ a 1000)))]) (if (< r 0) (+ r 1000) r)))
(function (lt a b) {(-> I64 I64 Bool)} (< a b))
(function (out a) {(-> I64 I64)} (println! a) a)
(function (tree s) {(-> (Syntax Sexp) I64)} (println! (dump s)) 0)
(function (show r) {(-> (Result (Syntax Sexp) String) unit)}
  (match r [(ok (let s)) (ignore (println! "ok " (dump s)))] [(err (let e)) (ignore (println! "err " e))]))
(function (dump s) {(-> (Syntax Sexp) String)}
  (match s
    [(s:integer (let g) (let v)) (if g (string "int:s" (annotate (conv-to I64 v) I64)) (string "int:u" v))]
    [(s:fpnumber (let v)) (string "fp:" v)]
    [(s:bool (let v)) (if v "bool:1" "bool:0")]
    [(s:symbol (let v)) (string "'" v)]
    [(s:string (let v)) (string "str:" (let ([t (text)]) (for (let b) (string/bytes v) (text/push! (string b ".") t)) (text/copy-to-string t)))]
    [(s:char (let v)) (string "chr:" (char/unicode-scalar v))]
    [(s:cons (let a) (let b)) (string "(" (dump a) " . " (dump b) ")")]
    [(s:nil) "()"]
    [(s:use _) "<use>"]))
'''

IMPORTS = {"main": '(import "std/s" _)\n(import "~/lib" _)\n(import "~/m1" _)\n(import "~/m2" _)\n'}


def module(mods, mn, rng):
    m = mods[mn]
    out = ['(import "std/s" _)', '(import "~/lib" _)'] + (['(import "~/m1" _)'] if mn == "m2" else [])
    names = list(m["macros"]) + [n + "-f" for n in m["macros"] if "-a" in n and n.split("-a")[1].isdigit()]
    qs = [n.replace("-a", "-q") for n in m["macros"] if "-a" in n and n.split("-a")[1].isdigit()]
    out.append("(export " + " ".join(names + qs) + ")")
    for n, d in m["defs"].items():
        out.append(f"(function ({n} {' '.join(d['ps'])}) {{(-> I64 I64)}} {text(d['e'])})")
    ty = lambda k: "{(-> " + "(Syntax Sexp) " * k + "(Result (Syntax Sexp) String))}"
    for n, f in m["fns"].items():
        out.append(f"(function ({n} {' '.join(f['ps'])}) {ty(len(f['ps']))}\n  {body(f['b'], '    ', rng)})")
    for n, f in m["macros"].items():
        if n + "-f" in names:
            out.append(f"(function ({n}-f {f['p']}) {ty(1)}\n  {body(f['b'], '    ', rng)})")
            out.append(f"(macro ({n} {f['p']}) ({n}-f {f['p']}))")
            out.append(f"(macro ({n.replace('-a', '-q')} {f['p']}) (ok `(quote ,({n}-f {f['p']})!)))")
        else:
            out.append(f"(macro ({n} {f['p']})\n  {body(f['b'], '    ', rng)})")
    rng.shuffle(out[3 if mn == "m2" else 2:])
    return "\n".join(out) + "\n"


MAIN = IMPORTS["main"] + "(function (h x) {(-> I64 I64)} (- x 3))\n(macro (mm s) (ok '1))\n"


def spec_world(mods):
    return strip({n: {k: m[k] for k in ("fns", "macros", "defs", "scope")} for n, m in mods.items()})
