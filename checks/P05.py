"""P05: unification against Unify.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

T = {"k": "c", "n": "t"}
def fun(l, r): return {"k": "a", "f": {"k": "c", "n": "->"}, "l": l + [r]}
H = fun([T], T)
CONS = {"Int": T, "Bool": T, "List": H, "Pair": fun([T, T], T), "Fix": fun([H], T), "Cur": fun([T], H), "Fn": fun([T, T, T], T)}
GENS = [T, T, H]
BOTTOM = 9


def key(k): return json.dumps(k, sort_keys=True)


class Types:
    def __init__(self, rng):
        self.r = rng
        self.glv = [rng.choice([0, 0, 0, 1, 2]) for _ in GENS]
        self.ops, self.kinds, self.vars, self.apps, self.tainted = [], [], [], 0, set()

    def slot(self, op, kind, var=False, gens=()):
        self.ops.append(op)
        self.kinds.append(kind)
        n = len(self.kinds)
        if var:
            self.vars.append(n)
        return n

    def of(self, kind, deep=2):
        """A slot of that kind, an old one or a new one."""
        r = self.r
        olds = [n for n, k in enumerate(self.kinds, 1) if k == kind]
        if olds and (r.random() < 0.75 or deep == 0):
            return r.choice(olds[-8:] if r.random() < 0.5 else olds)
        return self.make(kind, deep)

    def make(self, kind, deep=2):
        r = self.r
        k = r.random()
        if k < 0.35 or len(self.kinds) > 28:
            return self.slot({"o": "var", "kd": kind, "lv": r.choice([0, 0, 1, 1, 2, 3, BOTTOM])}, kind, True)
        if k < 0.45:
            gs = [j for j, g in enumerate(GENS, 1) if g == kind]
            if gs:
                return self.slot({"o": "gen", "n": r.choice(gs)}, kind)
        cs = [c for c, ck in CONS.items() if ck == kind]
        fs = [ck for ck in CONS.values() if ck["k"] == "a" and ck["l"][-1] == kind]
        if deep > 0 and fs and self.apps < 12 and (not cs or r.random() < 0.75):
            self.apps += 1
            fk = r.choice(fs)
            f = self.of(fk, deep - 1)
            l = [self.of(a, deep - 1) for a in fk["l"][:-1]]
            return self.slot({"o": "app", "f": f, "l": l}, kind)
        if cs:
            return self.slot({"o": "con", "n": r.choice(cs)}, kind)
        return self.slot({"o": "var", "kd": kind, "lv": r.choice([0, 1, 2])}, kind, True)

    def any(self):
        return self.of(self.r.choice([T, T, T, T, H, CONS["Pair"], CONS["Fix"]]))

    def pair(self):
        r = self.r
        if r.random() < 0.04:
            return self.any(), self.any()
        k = r.choice([T, T, T, T, T, H, H, CONS["Pair"]])
        vs = [n for n in self.vars if self.kinds[n - 1] == k]
        a = r.choice(vs) if vs and r.random() < 0.5 else self.of(k)
        b = self.of(k)
        return (a, b) if r.random() < 0.5 else (b, a)

    def map(self):
        """Type parameters to closed or variable terms (never parameters that are replaced as well)."""
        m = []
        for g in range(1, 4):
            if self.r.random() < 0.6:
                ns = [n for n in range(1, len(self.kinds) + 1) if self.kinds[n - 1] == GENS[g - 1] and self.ops[self.index(n)]["o"] in ("var", "con") and n not in self.bound]
                if ns:
                    m.append([g, self.r.choice(ns)])
        return m

    def index(self, n):
        c = 0
        for j, o in enumerate(self.ops):
            if o["o"] in ("var", "con", "gen", "app", "subst"):
                c += 1
                if c == n:
                    return j

    def history(self):
        r = self.r
        self.bound = set()
        solved = r.choice([3, 6, 10])
        for _ in range(r.choice([4, 8, 14])):
            self.make(r.choice([T, T, T, H]))
        for _ in range(r.choice([4, 8, 16])):
            k = r.random()
            if k < 0.4 and solved > 0:
                a, b = self.pair()
                self.ops.append({"o": "unify", "a": a, "b": b})
                self.bound = set(self.vars)
                solved -= 1
            elif k < 0.55:
                a, b = self.pair()
                self.ops.append({"o": "match", "a": a, "b": b})
                self.bound = set(self.vars)
            elif k < 0.6:
                d = self.slot({"o": "con", "n": r.choice(["Int", "Bool"])}, T)
                self.ops.append({"o": "default", "a": self.of(T), "b": d})
                self.bound = set(self.vars)
            elif k < 0.68:
                m, a = self.map(), self.of(T)
                self.slot({"o": "subst", "m": m, "a": a}, T)
            elif k < 0.76:
                a, b = self.pair()
                self.ops.append({"o": "equal", "a": a, "b": b})
            elif k < 0.84:
                a, b = self.pair()
                self.ops.append({"o": "eqs", "m": self.map(), "a": a, "b": b})
            elif k < 0.89:
                self.ops.append({"o": "vars", "a": self.any(), "lv": r.choice([0, 1, 2])})
            elif k < 0.92:
                self.ops.append({"o": "deep", "a": self.any()})
            elif k < 0.95:
                self.ops.append({"o": "kind", "a": self.any()})
            else:
                self.make(T)
        return self.ops


def kind_history(r):
    ops, n, vs, cs = [], 0, [], set()
    state = 0
    for _ in range(r.choice([10, 20, 30])):
        k = r.random()
        pick = lambda: r.choice(vs) if vs and r.random() < 0.45 else r.randrange(max(1, n - 9), n + 1) if r.random() < 0.6 else r.randrange(1, n + 1)
        if n < 2 or k < 0.25:
            ops.append({"o": "var"} if r.random() < 0.7 or n == 0 else {"o": "con", "n": r.choice(["t", "t", "constraint", "satisfaction", "value", "macro"])})
            n += 1
            if ops[-1]["o"] == "var":
                vs.append(n)
            elif ops[-1]["n"] == "t":
                cs.add(n)
        elif k < 0.55 and n < 18:
            ts = [j for j in range(1, n + 1) if j in cs]
            if ts and r.random() < 0.12:                           # many arguments of one kind
                l = [r.choice(ts) if r.random() < 0.98 else pick() for _ in range(r.randrange(14, 20))]
                ops.append({"o": "fun", "l": l, "f": pick()})
                n += 1
                continue
            ops.append({"o": "fun", "l": [pick() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 17 if state < 3 else 1]))], "f": pick()})
            n += 1
        elif k < 0.95:
            ops.append({"o": "unify", "a": pick(), "b": pick()})
            state += 1
        else:
            ops.append({"o": "con", "n": r.choice(["t", "macro"])})
            n += 1
            ops.append({"o": "default", "a": pick(), "b": n})
    return ops


def show(t):
    k = t["k"]
    return f"_{t['v']}@{t['lv']}" if k == "v" else t["n"] if k == "c" else f"g{t['g']}" if k == "g" else "(" + " ".join(map(show, [t["f"]] + t["l"])) + ")" if k == "a" else "?"


def explain(r, m, g):
    for j, o in enumerate(r["ops"]):
        a, b = m["out"][j], g["out"][j]
        if a != b:
            f = lambda x: ("" if x["ok"] else "fails") + (str(x["v"]) if "v" in x else "") + (" ".join(f"{n}={show(t)}" for n, t in enumerate(x["d"], 1)) if "d" in x else "")
            return f"after {json.dumps(r['ops'][:j])} the operation {json.dumps(o)} answers {f(b)} instead of {f(a)}"
    return "?"


def run(c):
    c.build(llrl0=False)
    c.tlc("UnifyLaws", env={"BATCH": "/dev/null"}, timeout=300)
    n = c.pick(3000, 40000)
    recs = [{"id": j, "kinds": True, "glv": [], "ops": kind_history(c.rng)} if j % 4 == 0 else (lambda t: {"id": j, "kinds": False, "ops": t.history(), "glv": t.glv})(Types(c.rng)) for j in range(n)]
    for k in range(0, n, 4000):
        part = recs[k:k + 4000]
        got = c.harness("unify", part)
        res = c.tlc_batch("Unify", part, timeout=900)
        for r in part:
            m, g = res[r["id"]], got[r["id"]]
            c.validated()
            for o, x in zip(r["ops"], m["out"]):
                c.part(("kind " if r["kinds"] else "type ") + o["o"] + ("" if x["ok"] else " refused"), 1)
                if "v" in x and isinstance(x["v"], list):
                    x["v"].sort()
            if "out" not in g:
                c.violation(f"{json.dumps(r['ops'])}: {g}", {"case": r, "got": g})
            elif m["out"] != g["out"]:
                c.violation(explain(r, m, g), {"case": r, "got": g, "model": m})
            else:
                c.sample(json.dumps(r["ops"])[:200])


if __name__ == "__main__":
    main("P05", run)
