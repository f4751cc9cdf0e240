"""Random well-typed llrl programs, as source text and as the node tables LlrlCore.tla evaluates.

Types: ("I32",) ("Bool",) ("Str",) ("Unit",) ("tup",a,..) ("opt",a) ("data",name,args..) ("ref",a) ("fn",(args..),ret)
Expressions are dicts; `src` renders one, `Flat` turns a program into the node table."""

I, B, S, U = ("I32",), ("Bool",), ("Str",), ("Unit",)


def ty(t):
    k = t[0]
    if k == "tup":
        return "(: " + " ".join(map(ty, t[1:])) + ")"
    if k == "opt":
        return f"(Option {ty(t[1])})"
    if k == "ref":
        return f"(Ref {ty(t[1])})"
    if k == "fn":
        return "(-> " + " ".join(map(ty, t[1] + (t[2],))) + ")"
    if k == "data":
        return f"({t[1]} {' '.join(map(ty, t[2:]))})" if len(t) > 2 else t[1]
    if k == "var":
        return t[1]
    if k == "num":
        return t[1]
    if k == "arr":
        return f"(Array {ty(t[1])})"
    return {"Str": "String", "Unit": "unit"}.get(k, k)


def subst(t, m):
    if t[0] == "var":
        return m[t[1]]
    if t[0] == "fn":
        return ("fn", tuple(subst(x, m) for x in t[1]), subst(t[2], m))
    return (t[0],) + tuple(subst(x, m) if isinstance(x, tuple) else x for x in t[1:])


def n(k, **kw):
    d = {"k": k}
    d.update(kw)
    return d


def app(f, *args): return n("app", es=list(args) + [f])
def var(x): return n("var", x=x)
def lit(i): return n("int", i=i)
def string(s): return n("str", s=s)
def con0(c): return n("con0", c=c)
def con(c, *es): return n("con", c=c, es=list(es)) if es else con0(c)
def prim(op, *es): return n("prim", op=op, es=list(es))
def begin(*es): return n("begin", es=list(es))
def if_(c, a, b): return n("if", es=[c, a, b])
def print_(*es): return begin(*[n("print", es=[e]) for e in es], n("print", es=[string("\n")]), con0("unit"))
def let(vars, body, funs=()): return n("let", vars=[{"x": x, "e": e} for x, e in vars], funs=[{"f": f, "ps": list(ps), "b": b} for f, ps, b in funs], b=body)
def match(e, *cl): return n("match", es=[e], cl=[{"p": p, "b": b} for p, b in cl])
def pvar(x, p=None): return {"k": "var", "x": x, "p": p or PW}
def pcon(c, *ps): return {"k": "con", "c": c, "ps": list(ps)}


OPS = {"!=": "ne?", "string=": "="}
PW = {"k": "_"}
TRUE, FALSE, UNIT = con0("#t"), con0("#f"), con0("unit")


# ------------------------------------------------------------------ rendering
def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def psrc(p):
    k = p["k"]
    if k == "_":
        return "_"
    if k == "var":
        return f"(let {p['x']})" if p["p"]["k"] == "_" else f"(let {p['x']} {psrc(p['p'])})"
    if k == "int":
        return str(p["i"])
    if k == "str":
        return p["text"] if "text" in p else esc(p["s"])
    if p["c"] == "tup":
        return "(: " + " ".join(map(psrc, p["ps"])) + ")"
    return p["c"] if not p["ps"] else "(" + p["c"] + "".join(" " + psrc(q) for q in p["ps"]) + ")"


def ann(e, s):
    return f"{s} {{{ty(e['ty'])}}}" if "ty" in e else s


def src(e):
    return ann(e, src_(e))


def src_(e):
    k = e["k"]
    es = e.get("es", [])
    if "text" in e:  # surface form supplied by the generator, holes filled with operands
        return e["text"].format(*[src(x) for x in e["holes"]])
    if k == "int":
        return str(e["i"])
    if k == "str":
        return esc(e["s"])
    if k in ("con0", "ctor"):
        return e["c"]
    if k == "var":
        return e["x"]
    if k in ("fun", "const"):
        return e.get("src", e["f"])
    if k == "app":
        return "(" + " ".join(src(x) for x in [es[-1]] + es[:-1]) + ")"
    if k == "tapp":
        return "(" + " ".join([e.get("src", e["f"])] + [src(x) for x in es]) + ")"
    if k == "con":
        return "(" + (":" if e["c"] == "tup" else e["c"]) + "".join(" " + src(x) for x in es) + ")"
    if k == "prim":
        return f"({OPS.get(e['op'], e['op'])} " + " ".join(map(src, es)) + ")"
    if k == "begin":
        return "(begin " + " ".join(map(src, es)) + ")"
    if k == "print":
        return f"(print! {src(es[0])})"
    if k == "if":
        return "(if " + " ".join(map(src, es)) + ")"
    if k == "while":
        return "(while " + " ".join(map(src, es)) + ")"
    if k == "return":
        return f"(return {src(es[0])})"
    if k == "ref":
        return f"(ref {src(es[0])})"
    if k == "get":
        return "~" + src_(es[0]) if es[0]["k"] == "var" else f"(load {src(es[0])})"
    if k == "set":
        return f"(set! {src(es[1])} {src(es[0])})"
    if k == "match":
        return f"(match {src(es[0])} " + " ".join(f"[{psrc(c['p'])} {src(c['b'])}]" for c in e["cl"]) + ")"
    if k == "let":
        items = e.get("order") or ([("f", i) for i in range(len(e["funs"]))] + [("v", i) for i in range(len(e["vars"]))])
        ds = []
        for kind, i in items:
            if kind == "f":
                f = e["funs"][i]
                sig = f" {{{f['sig']}}}" if f.get("sig") else ""
                ds.append(f"[({' '.join([f['f']] + f['ps'])}){sig} {src(f['b'])}]")
            else:
                ds.append(f"[{e['vars'][i]['x']} {src(e['vars'][i]['e'])}]")
        return "(let (" + " ".join(ds) + ") " + src(e["b"]) + ")"
    raise Exception(k)


# ------------------------------------------------------------------ node tables
class Flat:
    def __init__(self):
        self.nodes = []

    def add(self, e):
        k = e["k"]
        self.nodes.append(None)
        at = len(self.nodes)
        r = {"k": k}
        for f in ("i", "s", "c", "x", "f", "op"):
            if f in e:
                r[f] = e[f]
        if "es" in e:
            r["es"] = [self.add(x) for x in e["es"]]
        if k == "set":
            r["at"] = 2
        if k == "match":
            r["cl"] = [{"p": c["p"], "b": self.add(c["b"])} for c in e["cl"]]
        if k == "let":
            r["vars"] = [{"x": v["x"], "e": self.add(v["e"])} for v in e["vars"]]
            r["funs"] = [{"f": f["f"], "ps": f["ps"], "b": self.add(f["b"])} for f in e["funs"]]
            r["b"] = self.add(e["b"])
        self.nodes[at - 1] = r
        return at


class Program:
    def __init__(self, pid):
        self.id = pid
        self.decls = []      # source text of data declarations, classes, instances
        self.funs = []       # (name, params or None, body, signature text or None)
        self.tops = []       # expressions
        self.transparent = set()  # names of those of `funs` that are transparent
        self.hidden = []     # functions only the model knows by name (instances): (name, params, body)

    def source(self):
        out = list(self.decls)
        for name, ps, body, sig in self.funs:
            head = name if ps is None else "(" + " ".join([name] + ps) + ")"
            out.append(f"({'transparent-' if name in self.transparent else ''}function {head}{' {' + sig + '}' if sig else ''}\n  {src(body)})")
        out += [src(t) for t in self.tops]
        return "\n".join(out)

    def record(self):
        f = Flat()
        funs = {name: {"ps": ps or [], "b": f.add(body)} for name, ps, body, _ in self.funs}
        for name, ps, body in self.hidden:
            funs[name] = {"ps": ps, "b": f.add(body)}
        tops = [f.add(t) for t in self.tops]
        funs[""] = {"ps": [], "b": 1}
        return {"id": self.id, "nodes": f.nodes, "funs": funs, "tops": tops}


# spelling -> displayed form; values of these types are opaque tokens to the model
TOKENS = {
    "I8": ["0", "1", "-1", "127", "-128", "42"], "U8": ["0", "1", "128", "255", "42"],
    "I16": ["0", "-1", "32767", "-32768", "300"], "U16": ["0", "65535", "256", "300"],
    "U32": ["0", "1", "4294967295", "2147483648", "70000"],
    "I64": ["0", "-1", "9223372036854775807", "-9223372036854775808", "4294967296"],
    "U64": ["0", "1", "18446744073709551615", "4294967296", "9223372036854775808"],
    "F64": ["0.5", "-2.25", "1.5", "1024.125"], "F32": ["0.5", "-2.25", "3.75", "100.5"],
    "Char": ["a", "Z", "0", "*", "\u00e9", "\u8a71"]}


def token(t, v):
    lit = "#\\" + v if t == "Char" else v
    return {"k": "str", "s": v, "text": lit, "holes": [], "ty": ("num", t)}


# ------------------------------------------------------------------ generation
NAMES = ["x", "y", "z", "u", "v", "w", "a", "b"]


class Gen:
    """One program. `p` prefixes every top-level name so that many programs fit in one module."""

    def __init__(self, rng, pid, p, size=1.0, nums=0.12, wide=False, bare=0.0):
        self.rng, self.p, self.size, self.nums, self.wide, self.bare = rng, p, size, nums, wide, bare
        self.shows = {}
        self.insts = []      # types with an instance of the program's class
        self.cfuns = []      # constrained functions
        self.tfuns = []      # transparent functions: (name, (param types), ret)
        self.held = []       # parameters of the transparent function being written: not for its local functions
        self.byname = set()  # what the model calls by name: transparent functions, methods and their instances
        self.prog = Program(pid)
        self.datas = {}      # name -> (params, [(ctor, [field types])], value?)
        self.gfuns = []      # (name, (param types), ret, recursive?)
        self.consts = []     # (name, type)
        self.k = 0
        self.budget = 0
        self.ret = None      # return type of the enclosing function, if `return` may be used
        self.nat = 0

    def fresh(self, b="t"):
        self.k += 1
        return f"{b}{self.k}"

    # --- types
    def rtype(self, d=2, fn=True):
        r = self.rng
        if r.random() < self.nums:
            return ("num", r.choice(sorted(TOKENS)))
        opts = [I, I, I, B, S]
        if d > 0 and r.random() < 0.06:
            return ("arr", self.rtype(d - 1, fn))
        if d > 0:
            opts += ["tup", "tup", "opt", "data", "data", "ref"] + (["fn", "fn"] if fn else []) + [U]
        t = r.choice(opts)
        if t == "tup":
            return ("tup",) + tuple(self.rtype(d - 1, fn) for _ in range(r.choice([2, 2, 3, 1, 4])))
        if t == "opt":
            return ("opt", self.rtype(d - 1, fn))
        if t == "ref":
            return ("ref", self.rtype(d - 1, fn))
        if t == "fn":
            return ("fn", tuple(self.rtype(d - 1, False) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))), self.rtype(d - 1, fn))
        if t == "data":
            if not self.datas:
                return I
            name = r.choice(sorted(self.datas))
            return ("data", name) + tuple(self.rtype(d - 1, fn) for _ in self.datas[name][0])
        return t

    def ctors(self, t):
        if t[0] == "tup":
            return [("tup", list(t[1:]))]
        if t[0] == "opt":
            return [("none", []), ("some", [t[1]])]
        if t[0] == "Bool":
            return [("#f", []), ("#t", [])]
        if t[0] == "Unit":
            return [("unit", [])]
        if t[0] == "data":
            ps, cs, _ = self.datas[t[1]]
            m = dict(zip(ps, t[2:]))
            return [(c, [subst(f, m) for f in fs]) for c, fs in cs]
        return None

    def data_decls(self, count):
        r = self.rng
        for _ in range(count):
            name = f"{self.p}D{len(self.datas)}"
            value = r.random() < 0.4
            params = r.choice([[], [], ["A"], ["A", "B"]])
            cs = []
            nc = r.choice([1, 2, 2, 3, 3, 4]) if not self.wide else r.choice([1, 1, 2, 3, 4, 6, 9, 17])
            self_t = ("data", name) + tuple(("var", q) for q in params)
            rec_ok = not value
            for i in range(nc):
                fs = []
                for _ in range(r.choice([0, 1, 1, 2, 2, 3] + ([4, 5, 7] if self.wide else []))):
                    q = r.random()
                    if params and q < 0.4:
                        fs.append(("var", r.choice(params)))
                    elif rec_ok and i > 0 and q < 0.6:
                        fs.append(self_t)
                    else:
                        fs.append(self.rtype(1, fn=r.random() < 0.3))
                cs.append((f"{name.lower()}{chr(97 + i)}:", fs))
            if rec_ok:
                cs[0] = (cs[0][0], [f for f in cs[0][1] if f != self_t])
            head = f"({name} {' '.join(params)})" if params else name
            body = " ".join(f"({c} {' '.join(map(ty, fs))})" if fs else c for c, fs in cs)
            self.prog.decls.append(f"({'value-data' if value else 'data'} {head} {body})")
            self.datas[name] = (params, cs, value)

    # --- expressions; env: list of (name, type), innermost last
    def visible(self, env):
        seen, out = set(), []
        for x, t in reversed(env):
            if x not in seen:
                seen.add(x)
                out.append((x, t))
        return out

    def name(self, env, avoid=()):
        r = self.rng
        for _ in range(20):
            x = r.choice(NAMES)
            if x not in avoid:
                return x
        return self.fresh("v")

    def base(self, t, env, d=0):
        """A small expression of type t."""
        r = self.rng
        vs = [x for x, tt in self.visible(env) if tt == t]
        if vs and r.random() < 0.75:
            return var(r.choice(vs))
        k = t[0]
        if k == "I32":
            return lit(r.choice([0, 1, 2, 3, -1, 7, 10, 100, -5, 2147483647, -2147483648, r.randint(-1000, 1000)]))
        if k == "Bool":
            return r.choice([TRUE, FALSE])
        if k == "Str":
            return string(r.choice(["", "a", "b", "ab", "q r", "z\\", "\"", "hello"]))
        if k == "Unit":
            return UNIT
        if k == "num":
            return token(t[1], r.choice(TOKENS[t[1]]))
        if k == "arr":
            return self.array(t, [self.base(t[1], env, d + 1) for _ in range(2)])
        if k == "ref":
            return n("ref", es=[self.base(t[1], env, d + 1)])
        if k == "fn":
            return self.lam(t, env, 0, simple=True)
        if vs:
            return var(r.choice(vs))
        cs = self.ctors(t)
        if d > 2:
            cs = cs[:1]
        c, fs = r.choice(cs)
        return self.construct(t, c, [self.base(f, env, d + 1) for f in fs])

    def construct(self, t, c, es):
        e = con(c, *es)
        if c == "none" or (t[0] == "data" and len(t) > 2):
            e["ty"] = t
        return e

    def array(self, t, es):
        e = con("arr", *es)
        e["text"], e["holes"], e["ty"] = "(array {0} {1})", es, t
        return e

    def element(self, a, i):
        e = n("match", es=[a], cl=[{"p": pcon("arr", *[pvar("e!") if j == i else PW for j in range(2)]), "b": var("e!")}])
        e["text"], e["holes"] = "(get {0} [" + str(i) + "])", [a]
        return e

    def lam(self, t, env, d, simple=False):
        r = self.rng
        ps = []
        for a in t[1]:
            ps.append(self.name(env, ps))
        f = r.choice(["f", "g", "h", "k"])
        saved = self.ret
        self.ret = t[2]
        if simple:
            inner = self.outer(env) + list(zip(ps, t[1]))
            vs = [x for x, tt in self.visible(inner) if tt == t[2]]
            body = var(r.choice(vs)) if vs and r.random() < .7 else self.base(t[2], [e for e in inner if e[1] != t], 2)
        else:
            inner = self.outer(env) + list(zip(ps, t[1]))
            body = self.expr(t[2], inner, d - 1)
        self.ret = saved
        e = let([], var(f), [(f, ps, body)])
        if self.open(body):
            # the type of a local function is made general before its use: its parameters must be known
            e["funs"][0]["sig"] = ty(t)
        elif r.random() < 0.4 and f not in [x for x, _ in env]:
            # same thing through the lambda macro
            e["text"] = "(lambda (" + " ".join(ps) + ") {0})"
            e["holes"] = [body]
        # annotate: parameter types may otherwise stay unknown
        if self.bare == 0 or r.random() > self.bare:
            e["ty"] = t
        return e

    def open(self, e):
        """Whether a method is used, or an operation is applied to variables only, whose type may stay unknown."""
        if isinstance(e, dict):
            es = e.get("es", [])
            if "!" in str(e.get("f", "")):
                return True
            if e.get("k") in ("prim", "print", "app", "set", "get") and any(x["k"] == "var" for x in es) and \
                    (e["k"] in ("set", "get") or not any(x["k"] in ("int", "str", "con0") for x in es)):
                return True
            return any(self.open(v) for v in e.values())
        return isinstance(e, list) and any(map(self.open, e))

    def outer(self, env):
        """What a local function may use: when a parameter passed by name is captured, is nobody's business."""
        return [e for e in env if not any(e is h for h in self.held)]

    def stmt(self, env, d):
        """An effect: prints something or updates a reference."""
        r = self.rng
        refs = [(x, t) for x, t in self.visible(env) if t[0] == "ref"]
        if refs and r.random() < 0.5:
            x, t = r.choice(refs)
            return n("set", es=[self.expr(t[1], env, d - 1), var(x)])
        if r.random() < 0.25 and d > 1:
            return self.loop(env, d)
        parts = []
        for _ in range(r.choice([1, 1, 2])):
            parts.append(self.expr(r.choice([I, I, S, B]), env, d - 1))
            parts.append(string(" "))
        return print_(*parts[:-1])

    def loop(self, env, d):
        r = self.rng
        i = self.fresh("i")
        # the counter is not in the body's environment: nothing else can touch it
        body = [self.stmt(env, d - 2) for _ in range(r.choice([1, 2]))]
        inc = n("set", es=[prim("+", n("get", es=[var(i)]), lit(1)), var(i)])
        w = n("while", es=[prim("<", n("get", es=[var(i)]), lit(r.randint(0, 3))), begin(*body, inc, UNIT)])
        return let([(i, n("ref", es=[lit(0)]))], w)

    def pattern(self, t, d, env):
        """A pattern for t and its bindings."""
        r = self.rng
        q = r.random()
        if d == 0 or q < 0.2:
            if r.random() < 0.65:
                x = self.fresh("p") if r.random() < 0.5 else None
                if x is None:
                    x = self.fresh("q")
                return pvar(x), [(x, t)]
            return PW, []
        cs = self.ctors(t)
        if cs:
            c, fs = r.choice(cs)
            ps, bs = [], []
            for f in fs:
                p, b = self.pattern(f, d - 1, env)
                ps.append(p)
                bs += b
            p = pcon(c, *ps)
            if r.random() < 0.15:
                x = self.fresh("w")
                return pvar(x, p), bs + [(x, t)]
            return p, bs
        if t == I:
            return {"k": "int", "i": r.choice([0, 1, -1, 2, 7])}, []
        if t[0] == "num":
            tok = token(t[1], r.choice(TOKENS[t[1]]))
            return {"k": "str", "s": tok["s"], "text": tok["text"]}, []
        if t == S:
            return {"k": "str", "s": r.choice(["", "a", "ab"])}, []
        return PW, []

    def split(self, t, d, fuel=8):
        """Exhaustive, non-redundant patterns for t with bindings."""
        r = self.rng
        cs = self.ctors(t)
        if d == 0 or r.random() < 0.2:
            if r.random() < 0.7:
                x = self.fresh("p")
                return [(pvar(x), [(x, t)])]
            return [(PW, [])]
        if t in (I, S):
            keys = r.sample([0, 1, -1, 2, 7], 2) if t == I else r.sample(["", "a", "ab"], 2)
            x = self.fresh("p")
            return [({"k": "int", "i": q} if t == I else {"k": "str", "s": q}, []) for q in keys] + [(pvar(x), [(x, t)])]
        if t[0] == "num":
            x = self.fresh("p")
            toks = [token(t[1], v) for v in r.sample(TOKENS[t[1]], 2)]
            return [({"k": "str", "s": q["s"], "text": q["text"]}, []) for q in toks] + [(pvar(x), [(x, t)])]
        if not cs:
            x = self.fresh("p")
            return [(pvar(x), [(x, t)])]
        out = []
        for c, fs in cs:
            combos = [([], [])]
            for f in fs:
                sub = self.split(f, d - 1)
                if len(combos) * len(sub) > 4:
                    x = self.fresh("p")
                    sub = [(pvar(x), [(x, f)])]
                combos = [(ps + [q], bs + b) for ps, bs in combos for q, b in sub]
            for ps, bs in combos:
                p = pcon(c, *ps)
                if r.random() < 0.1:
                    x = self.fresh("w")
                    p, bs = pvar(x, p), bs + [(x, t)]
                out.append((p, bs))
        if len(out) > 2 and r.random() < 0.4:
            # collapse a tail into a catch-all
            keep = r.randint(1, len(out) - 1)
            x = self.fresh("p")
            out = out[:keep] + [(pvar(x), [(x, t)])]
        return out

    def matching(self, t, env, d):
        r = self.rng
        scr = self.rtype(2, fn=False)
        vs = [(x, tt) for x, tt in self.visible(env) if self.ctors(tt) or tt in (I, S) or tt[0] == "num"]
        if vs and r.random() < 0.6:
            x, scr = r.choice(vs)
            target = var(x)
        else:
            target = self.expr(scr, env, d - 1)
        form = r.random()
        if form < 0.12:   # one pattern or else
            p, b = self.pattern(scr, 2, env)
            if not self.irrefutable(p, scr):
                e = match(target, (p, self.expr(t, env + b, d - 1)), (PW, self.expr(t, env, d - 1)))
                e["text"] = "(if-match1 " + psrc(p) + " {0} {1} {2})"
                e["holes"] = [target, e["cl"][0]["b"], e["cl"][1]["b"]]
                return e
        cl = [(p, self.expr(t, env + b, d - 1)) for p, b in self.split(scr, r.choice([1, 2, 2, 3]))]
        if len(cl) == 1 and r.random() < 0.4:
            e = match(target, *cl)
            e["text"], e["holes"] = "(with1 " + psrc(cl[0][0]) + " {0} {1})", [target, cl[0][1]]
            return e
        return match(target, *cl)

    def irrefutable(self, p, t):
        if p["k"] == "_":
            return True
        if p["k"] == "var":
            return self.irrefutable(p["p"], t)
        cs = self.ctors(t) if p["k"] == "con" else None
        return bool(cs) and len(cs) == 1 and all(self.irrefutable(q, f) for q, f in zip(p["ps"], cs[0][1]))

    def expr(self, t, env, d):
        r = self.rng
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.base(t, env)
        opts = ["base", "if", "let", "let", "match", "match", "begin", "call", "call"]
        if t == I:
            opts += ["arith"] * 5
        elif t == B:
            opts += ["cmp"] * 4
        elif t == S:
            opts += ["concat"] * 2
        elif t == U:
            opts += ["stmt"] * 4
        elif t[0] == "fn":
            opts += ["lam"] * 5 + ["fun"]
        elif t[0] == "ref":
            opts += ["ref"] * 3
        elif t[0] == "arr":
            opts += ["arr"] * 3
        elif self.ctors(t):
            opts += ["con"] * 4
        if self.ret is not None and self.ret[0] == "opt":
            opts += ["try"] * 2
        if self.insts and t == I:
            opts += ["method"] * 3
        if any(tt == ("ref", t) for _, tt in env):
            opts += ["get"] * 2
        if any(tt[0] == "fn" and tt[2] == t for _, tt in env):
            opts += ["callv"] * 3
        if self.ret is not None:
            opts += ["return"]
        opts += ["letrec"]
        if t[0] != "fn":
            opts += ["immediate", "poly"]
        o = r.choice(opts)
        E = lambda tt, dd=1: self.expr(tt, env, d - dd)
        if o == "if":
            c = E(B)
            form = r.random()
            if form < 0.15:
                c2 = E(B)
                inner = if_(c2, E(t), E(t))
                e = if_(c, E(t), inner)
                e["text"], e["holes"] = "(cond [{0} {1}] [{2} {3}] [else {4}])", [c, e["es"][1]] + inner["es"]
                return e
            if t == U and form < 0.5:
                e = if_(c, begin(E(U), UNIT), UNIT)
                e["text"], e["holes"] = "(when {0} {1})", [c, e["es"][1]["es"][0]]
                return e
            if t[0] == "opt" and form < 0.5:
                e = if_(c, con("some", E(t[1])), con0("none"))
                e["text"], e["holes"] = "(when? {0} {1})", [c, e["es"][1]["es"][0]]
                return e
            return if_(c, E(t), E(t))
        if o == "let":
            m = r.choice([1, 1, 2, 3])
            vs, names = [], []
            for _ in range(m):
                tt = self.rtype(2)
                x = self.name(env, names)
                names.append(x)
                vs.append((x, self.expr(tt, env, d - 1), tt))
            e = let([(x, q) for x, q, _ in vs], self.expr(t, env + [(x, tt) for x, _, tt in vs], d - 1))
            if m == 2 and r.random() < 0.3:
                # sequential form: the second initialiser sees the first variable
                x0, t0 = vs[0][0], vs[0][2]
                x1, t1 = vs[1][0], vs[1][2]
                e1 = self.expr(t1, env + [(x0, t0)], d - 1)
                b = self.expr(t, env + [(x0, t0), (x1, t1)], d - 1)
                inner = let([(x1, e1)], b)
                e = let([(x0, vs[0][1])], inner)
                e["text"], e["holes"] = "(let* ([" + x0 + " {0}] [" + x1 + " {1}]) {2})", [vs[0][1], e1, b]
                return e
            if m == 1 and r.random() < 0.3:
                e["text"] = "(let1 " + vs[0][0] + " {0} {1})"
                e["holes"] = [vs[0][1], e["b"]]
            return e
        if o == "letrec":
            return self.letrec(t, env, d)
        if o == "arr":
            return self.array(t, [E(t[1]), E(t[1])])
        if o == "try":
            a, x = E(("opt", t)), self.fresh("x")
            e = match(a, (pcon("some", pvar(x)), var(x)), (pcon("none"), n("return", es=[con0("none")])))
            e["text"], e["holes"] = "(try? {0})", [a]
            if r.random() < 0.5 and a["k"] == "app" and "ty" not in a:
                e["text"] = "{0}?"
            return e
        if o == "method":
            tt = r.choice(self.insts)
            m = r.choice(self.cfuns) if r.random() < 0.3 and self.cfuns else self.p + "m"
            return self.call(n("fun", f=f"{m}!{ty(tt)}", src=m), (tt, I), env, d)
        if o == "match":
            return self.matching(t, env, d)
        if o == "begin":
            return begin(*[self.stmt(env, d - 1) for _ in range(r.choice([1, 1, 2]))], E(t))
        if o == "arith":
            op = r.choice(["+", "-", "*", "+", "-", "/", "%"])
            if op in "/%":
                return prim(op, E(I), lit(r.choice([2, 3, 7, -2, 10])))
            return prim(op, E(I), E(I))
        if o == "cmp":
            q = r.random()
            if q < 0.2:
                e = if_(E(B), E(B), FALSE)
                e["text"], e["holes"] = "(and {0} {1})", e["es"][:2]
                return e
            if q < 0.4:
                a, b = E(B), E(B)
                e = if_(a, TRUE, b)
                e["text"], e["holes"] = "(or {0} {1})", [a, b]
                return e
            if q < 0.5:
                return prim("not", E(B))
            if q < 0.6:
                e = prim("string=", E(S), E(S))
                e["text"], e["holes"] = "(= {0} {1})", e["es"]
                return e
            return prim(r.choice(["<", "<=", ">", ">=", "=", "!="]), E(I), E(I)) if q < 2 else None
        if o == "concat":
            return prim("string", *[E(r.choice([S, I, S, B])) for _ in range(r.choice([1, 2, 3]))])
        if o == "stmt":
            return self.stmt(env, d)
        if o == "lam":
            return self.lam(t, env, d)
        if o == "fun":
            fs = [f for f in self.gfuns if f[1] == t[1] and f[2] == t[2] and not f[3]]
            fs += [f for f in self.tfuns if f[1] == t[1] and f[2] == t[2]]
            if fs:
                return n("fun", f=r.choice(fs)[0])
            if t[2][0] in ("data", "opt") and self.rng.random() < 0.9:
                cs = [c for c, fs in self.ctors(t[2]) if tuple(fs) == t[1] and fs]
                if cs:
                    return n("ctor", c=cs[0])
            return self.lam(t, env, d)
        if o == "ref":
            return n("ref", es=[E(t[1])])
        if o == "con":
            c, fs = r.choice(self.ctors(t))
            return self.construct(t, c, [E(f) for f in fs])
        if o == "get":
            xs = [x for x, tt in self.visible(env) if tt == ("ref", t)]
            if not xs:
                return self.base(t, env)
            return n("get", es=[var(r.choice(xs))])
        if o == "callv":
            xs = [(x, tt) for x, tt in self.visible(env) if tt[0] == "fn" and tt[2] == t]
            if not xs:
                return self.base(t, env)
            x, tt = r.choice(xs)
            return app(var(x), *[E(a) for a in tt[1]])
        if o == "return":
            e = n("return", es=[self.expr(self.ret, env, d - 1)])
            if r.random() < 0.5:
                # (begin (when c (return e)) rest)
                c = if_(E(B), e, UNIT)
                return begin(c, E(t))
            return if_(E(B), e, E(t))
        if o == "immediate":
            a = self.rtype(1)
            ft = ("fn", (a,), t)
            return app(self.lam(ft, env, d - 1), E(a))
        if o == "poly":
            return self.poly(t, env, d)
        if o == "call":
            ts = [f for f in self.tfuns if f[2] == t]
            if ts and r.random() < 0.6:
                name, ps, ret = r.choice(ts)
                return self.call(n("fun", f=name), ps, env, d)
            fs = [f for f in self.gfuns if f[2] == t]
            if fs:
                name, ps, ret, rec = r.choice(fs)
                args = [self.expr(a, env, d - 1) for a in ps]
                if rec:
                    args[0] = lit(r.choice([0, 1, 2, 3]))
                return app(n("fun", f=name), *args)
            cs = [c for c in self.consts if c[1] == t]
            if cs:
                return n("const", f=r.choice(cs)[0])
        return self.base(t, env)

    def apply(self, f, *args):
        """Application of a known function: by name when it is transparent."""
        if f["f"] in self.byname:
            return n("tapp", f=f["f"], es=list(args), **({"src": f["src"]} if "src" in f else {}))
        return app(f, *args)

    def call(self, f, types, env, d):
        if f["f"] not in self.byname:
            return app(f, *[self.expr(a, env, d - 1) for a in types])
        # what is passed by name is written out wherever it is used: small, and without early returns
        saved, left, self.ret = self.ret, self.budget, None
        args = []
        for a in types:
            self.budget = min(left, 6)
            args.append(self.expr(a, env, min(d - 1, 2)))
        self.ret, self.budget = saved, left - 6
        return self.apply(f, *args)

    def transparents(self, count):
        """Functions whose application means their body with the arguments in place of the parameters."""
        r = self.rng
        for i in range(count):
            name = f"{self.p}t{i}"
            ret = self.rtype(2)
            ps = tuple(r.choice([ret, I, self.rtype(2), self.rtype(1)]) for _ in range(r.choice([1, 1, 2, 2, 3])))
            names = []
            for _ in ps:
                names.append(self.name([], names))
            env = list(zip(names, ps))
            self.budget, self.ret, self.held = 12, None, env
            body = self.expr(ret, env, 3)
            self.held = []
            if r.random() < 0.4:
                x, t = r.choice(env)
                body = begin(self.show(var(x), t), body)
            self.prog.funs.append((name, names, body, ty(("fn", ps, ret))))
            self.prog.transparent.add(name)
            self.byname.add(name)
            self.tfuns.append((name, ps, ret))

    POLY = {  # polymorphic helpers every program may use
        "idp": ("(function (%sidp x) x)", ["x"], lambda P: var("x")),
        "fst": None}

    def poly(self, t, env, d):
        r = self.rng
        E = lambda tt: self.expr(tt, env, d - 1)
        q = r.choice(["id", "fst", "snd", "apply", "choose", "twice", "unopt"])
        P = self.p
        if q == "id":
            return app(n("fun", f=P + "id"), E(t))
        if q in ("fst", "snd"):
            o = self.rtype(1)
            pair = ("tup", t, o) if q == "fst" else ("tup", o, t)
            return app(n("fun", f=P + q), E(pair))
        if q == "apply":
            a = self.rtype(1)
            return app(n("fun", f=P + "apply"), E(("fn", (a,), t)), E(a))
        if q == "choose":
            return app(n("fun", f=P + "choose"), E(B), E(t), E(t))
        if q == "twice":
            return app(n("fun", f=P + "twice"), E(("fn", (t,), t)), E(t))
        return app(n("fun", f=P + "unopt"), E(t), E(("opt", t)))

    def poly_decls(self):
        P, f = self.p, self.prog.funs
        f.append((P + "id", ["x"], var("x"), None))
        f.append((P + "fst", ["p"], match(var("p"), (pcon("tup", pvar("l"), PW), var("l"))), None))
        f.append((P + "snd", ["p"], match(var("p"), (pcon("tup", PW, pvar("r")), var("r"))), "(forall A B) (-> (: A B) B)"))
        f.append((P + "apply", ["f", "x"], app(var("f"), var("x")), None))
        f.append((P + "choose", ["c", "x", "y"], if_(var("c"), var("x"), app(n("fun", f=P + "id"), var("y"))), "(forall A) (-> Bool A A A)"))
        f.append((P + "twice", ["f", "x"], app(n("fun", f=P + "apply"), var("f"), app(n("fun", f=P + "apply"), var("f"), var("x"))), None))
        f.append((P + "unopt", ["d", "o"], match(var("o"), (pcon("some", pvar("x")), var("x")), (pcon("none"), var("d"))), None))

    def letrec(self, t, env, d):
        """Local functions that call each other with decreasing fuel."""
        r = self.rng
        m = r.choice([1, 1, 2])
        fs = [self.fresh("lf") for _ in range(m)]
        a = self.rtype(1, fn=False)
        sig = ("fn", (I, a), t)
        funs = []
        saved = self.ret
        for j in range(m):
            fu, x = self.fresh("n"), self.fresh("s")
            inner = self.outer(env) + [(x, a)]
            self.ret = t
            again = app(var(r.choice(fs)), prim("-", var(fu), lit(1)), self.expr(a, inner, d - 2))
            if r.random() < 0.5:
                again = begin(self.stmt(inner, d - 2), again)
            if t == I and r.random() < 0.5:
                again = prim("+", again, self.expr(I, inner, d - 2))
            body = if_(prim("<=", var(fu), lit(0)), self.expr(t, inner, d - 2), again)
            funs.append((fs[j], [fu, x], body))
        self.ret = saved
        e = let([], None, funs)
        for f in e["funs"]:
            f["sig"] = ty(sig)
        call = app(var(r.choice(fs)), lit(r.randint(0, 3)), self.expr(a, env, d - 1))
        if r.random() < 0.4:
            x = self.fresh("v")
            e["vars"] = [{"x": x, "e": call}]
            e["b"] = self.expr(t, env + [(x, t)], d - 2)
            e["order"] = r.choice([[("v", 0)] + [("f", i) for i in range(m)], [("f", i) for i in range(m)] + [("v", 0)]])
        else:
            e["b"] = call
        return e

    def functions(self, count):
        r = self.rng
        for i in range(count):
            name = f"{self.p}f{i}"
            rec = r.random() < 0.45
            ret = self.rtype(2)
            ps = tuple(self.rtype(2) for _ in range(r.choice([1, 1, 2, 3, 6])))
            if rec:
                ps = (I,) + ps[:2]
            names = []
            for _ in ps:
                names.append(self.name([], names))
            self.budget = int(40 * self.size)
            self.ret = ret
            env = list(zip(names, ps))
            if rec:
                again = app(n("fun", f=name), prim("-", var(names[0]), lit(1)), *[self.expr(a, env[1:], 2) for a in ps[1:]])
                if ret == I and r.random() < 0.5:
                    again = prim(r.choice(["+", "-"]), again, self.expr(I, env, 2))
                if r.random() < 0.5:
                    again = begin(self.stmt(env[1:], 2), again)
                body = if_(prim("<=", var(names[0]), lit(0)), self.expr(ret, env[1:], 3), again)
            else:
                body = self.expr(ret, env, 4)
            self.ret = None
            sig = ty(("fn", ps, ret))
            if r.random() < self.bare:
                sig = None
            self.prog.funs.append((name, names, body, sig))
            self.gfuns.append((name, ps, ret, rec))
            if r.random() < 0.2:
                cname = f"{self.p}c{i}"
                t = self.rtype(1)
                self.budget = 15
                if r.random() < 0.3:
                    self.prog.transparent.add(cname)
                self.prog.funs.append((cname, None, self.expr(t, [], 2), ty(t)))
                self.consts.append((cname, t))

    def classes(self):
        """A class with instances at several types and functions constrained by it."""
        r, P = self.rng, self.p
        self.prog.decls.append(f"(class ({P}C A) (function ({P}m x i) {{(-> A I32 I32)}}))")
        done = []
        for j in range(r.choice([2, 3])):
            t = self.rtype(1, fn=False)
            if any(self.overlap(t, u) for u in done):
                continue
            done.append(t)
            self.budget = 15
            tr = r.random() < 0.3
            self.ret = None if tr else I
            env = [("x", t), ("i", I)]
            self.held = env if tr else []
            body = self.expr(I, env, 3)
            self.ret, self.held = None, []
            if tr:
                self.byname.add(f"{P}m!{ty(t)}")
            self.prog.decls.append(f"(instance {P}C.{j} ({P}C {ty(t)}) ({'transparent-' if tr else ''}function ({P}m x i) {src(body)}))")
            self.prog.hidden.append((f"{P}m!{ty(t)}", ["x", "i"], body))
        for j in range(r.choice([1, 2])):
            name = f"{P}g{j}"
            form = r.choice([0, 1, 2])

            def body(m):
                call = self.apply(m, var("x"), prim("+", var("i"), lit(j)))
                if form == 0:
                    return prim("-", call, self.apply(m, var("x"), lit(1)))
                if form == 1:
                    return let([], app(var("h"), var("i")), [("h", ["k"], self.apply(m, var("x"), var("k")))])
                return if_(prim("<", var("i"), lit(3)), call, self.apply(n("fun", f=f"{P}g0" + m["f"][len(P) + 1:], src=f"{P}g0"), var("x"), lit(0)) if j else call)
            sig = f"(forall A) (-> A I32 I32) (where ({P}C A))"
            gen = body(n("fun", f=f"{P}m!", src=P + "m"))
            tr = form != 1 and r.random() < 0.3
            self.prog.decls.append(f"({'transparent-' if tr else ''}function ({name} x i)" + (f" {{{sig}}}" if r.random() < .6 else "") + f" {src(gen)})")
            for t in done:
                self.prog.hidden.append((f"{name}!{ty(t)}", ["x", "i"], body(n("fun", f=f"{P}m!{ty(t)}", src=P + "m"))))
                if tr:
                    self.byname.add(f"{name}!{ty(t)}")
            self.cfuns.append(name)
        self.insts = done

    def escapes(self, count):
        """References made inside functions that outlive the call: returned, stored in other references, in data,
        captured by closures, handed to other functions; read again after the stack has been used for something else."""
        r, P, f = self.rng, self.p, self.prog.funs
        fn = lambda x: n("fun", f=P + x)
        get = lambda x: n("get", es=[x])
        ref = lambda x: n("ref", es=[x])
        set_ = lambda v, x: n("set", es=[v, x])
        f.append((P + "burn", ["n"], let([("a", ref(var("n"))), ("b", ref(prim("+", var("n"), lit(17)))), ("c", ref(lit(-3)))],
                  begin(set_(prim("+", get(var("b")), get(var("c"))), var("a")),
                        if_(prim("<=", var("n"), lit(0)), get(var("a")),
                            prim("-", app(fn("burn"), prim("-", var("n"), lit(1))), get(var("a")))))), ty(("fn", (I,), I))))
        for k in range(count):
            t = self.rtype(1, fn=False)
            R = ("ref", t)
            self.budget = 25
            self.ret = None
            x = var("x")
            other = self.base(t, [("v", t)])
            form = r.choice(["ret", "inref", "inref", "fill", "fill", "store", "tup", "opt", "get", "put", "if", "match", "alias", "chain", "id"])
            e, et, show = x, R, None
            if form == "inref":
                e, et = let([("o", ref(ref(other)))], begin(set_(x, var("o")), var("o"))), ("ref", R)
            elif form in ("fill", "store"):
                # another function stores its own reference, or the one it is given, into an outer reference
                f.append((f"{P}fill{k}", ["v", "o"], let([("x", ref(var("v")))], begin(*([set_(other, x)] if r.random() < .5 else []), set_(x, var("o"))))
                          if form == "fill" else set_(var("v"), var("o")),
                          ty(("fn", (t if form == "fill" else R, ("ref", R)), U))))
                e, et = let([("o", ref(ref(other)))], begin(app(fn(f"fill{k}"), var("v") if form == "fill" else x, var("o")), var("o"))), ("ref", R)
            elif form == "tup":
                e, et = con("tup", x, lit(k)), ("tup", R, I)
            elif form == "opt":
                e, et = con("some", x), ("opt", R)
            elif form == "get":
                e, et = let([], var("g"), [("g", [], get(x))]), ("fn", (), t)
            elif form == "put":
                e, et = let([], var("g"), [("g", ["w"], begin(set_(var("w"), x), get(x)))]), ("fn", (t,), t)
                e["funs"][0]["sig"] = ty(et)
            elif form == "if":
                e = if_(prim("<", lit(r.choice([0, 5])), lit(3)), x, ref(other))
            elif form == "match":
                e = match(con("some", x), (pcon("some", pvar("y")), var("y")), (pcon("none"), ref(other)))
            elif form == "alias":
                e = let([("y", x)], begin(set_(other, var("y")), var("y")))
            elif form == "chain":
                e, et = let([("o", ref(x))], let([("q", ref(var("o")))], var("q"))), ("ref", ("ref", R))
            elif form == "id":
                e = app(fn("id"), x)
            body = let([("x", ref(var("v")))], begin(set_(var("v"), x), e) if r.random() < .5 else e)
            f.append((f"{P}esc{k}", ["v"], body, ty(("fn", (t,), et))))
            a, b = self.base(t, []), self.base(t, [])
            steps = [self.show(app(fn("burn"), lit(r.choice([0, 3, 8]))), I), self.show(var("p"), et), self.show(var("q"), et)]
            if et in (R, ("ref", R)):
                at = lambda z: z if et == R else get(z)
                steps += [set_(self.base(t, []), at(var("p"))), self.show(var("q"), et), self.show(var("p"), et)]
            self.prog.tops.append(let([("p", app(fn(f"esc{k}"), a))], let([("q", app(fn(f"esc{k}"), b))], begin(*steps))))

    @staticmethod
    def overlap(a, b):
        return a == b or (a[0] == b[0] and a[0] not in ("num",) and not (a[0] == "data" and a[1] != b[1]))

    def show(self, e, t):
        """An expression printing the value of e (of type t) structurally."""
        if t in (I, B, S) or t[0] == "num":
            return print_(e)
        if t not in self.shows:
            # one printing function per type; recursive types make it recursive
            name = f"{self.p}s{len(self.shows)}"
            self.shows[t] = name
            x = var("o")
            say = lambda s: n("print", es=[string(s)])
            if t[0] == "arr":
                body = begin(say("["), self.show(self.element(x, 0), t[1]), self.show(self.element(x, 1), t[1]), print_(string("]")))
            elif t[0] == "ref":
                body = begin(say("ref "), self.show(n("get", es=[x]), t[1]))
            elif t[0] == "fn":
                body = begin(say("fn "), self.show(app(x, *[self.base(a, []) for a in t[1]]), t[2]))
            else:
                cl = []
                for c, fs in self.ctors(t):
                    xs = [f"o{i}" for i in range(len(fs))]
                    parts = [self.show(var(y), f) for y, f in zip(xs, fs)]
                    cl.append((pcon(c, *[pvar(y) for y in xs]), begin(say(c + " "), *parts, print_(string(".")))))
                body = match(x, *cl)
            self.prog.funs.append((name, ["o"], body, ty(("fn", (t,), U))))
        return app(n("fun", f=self.shows[t]), e)

    def generate(self):
        r = self.rng
        self.poly_decls()
        self.data_decls(r.choice([1, 2, 2, 3]))
        if r.random() < 0.5:
            self.classes()
        if r.random() < 0.6:
            self.transparents(r.choice([1, 2, 3]))
        self.functions(r.choice([2, 3, 3, 4]))
        for _ in range(r.choice([2, 3, 4])):
            t = self.rtype(2)
            self.budget = int(50 * self.size)
            self.prog.tops.append(self.show(self.expr(t, [], 5), t))
        if r.random() < 0.5:
            self.escapes(r.choice([1, 2, 3]))
        return self.prog
