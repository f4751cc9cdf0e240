"""P02: data values keep their contents, matches take the first fitting clause: LlrlCore.tla on programs
rich in data types of many shapes (constructor counts, field widths, nesting, value types, instantiations)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from coregen import *
from corerun import *


class DataGen(Gen):
    many = False

    def many_constructors(self):
        """A type with about as many constructors as one or two bytes of tag allow, next to one holding it."""
        r = self.rng
        name, value = f"{self.p}D0", r.random() < 0.5
        count = r.choice([127, 128, 129, 200, 255, 256, 257, 258, 300, 400])
        fields = r.random() < 0.6
        cs = []
        for i in range(count):
            few = fields and (i < 2 or i > count - 4 or r.random() < 0.03)
            cs.append((f"{name.lower()}q{i}:", [self.rtype(1, fn=False) for _ in range(r.choice([1, 1, 2]))] if few else []))
        body = " ".join(f"({c} {' '.join(map(ty, fs))})" if fs else c for c, fs in cs)
        self.prog.decls.append(f"({'value-data' if value else 'data'} {name} {body})")
        self.datas[name] = ([], cs, value)
        t = ("data", name)
        hold = f"{self.p}D1"
        cs2 = [(f"{hold.lower()}{x}:", [t, self.rtype(1, fn=False)][:k]) for x, k in (("a", 0), ("b", 1), ("c", 2))]
        self.prog.decls.append(f"(data {hold} " + " ".join(f"({c} {' '.join(map(ty, fs))})" if fs else c for c, fs in cs2) + ")")
        self.datas[hold] = ([], cs2, False)
        # constructors whose numbers agree in the low bits
        i = r.randrange(count)
        near = sorted({j for j in (i, i ^ 128, i ^ 256, (i + 256) % 512, count - 1, 0, 1) if j < count})
        clauses = [(pcon(cs[j][0], *[PW for _ in cs[j][1]]), print_(string(f"constructor {j}"))) for j in r.sample(near, r.randint(1, len(near)))]
        fname = self.p + "which"
        self.prog.funs.append((fname, ["x"], match(var("x"), *clauses, (PW, print_(string("other")))), ty(("fn", (t,), U))))
        for j in near + [r.randrange(count)]:
            self.budget = 20
            e = con(cs[j][0], *[self.base(f, []) for f in cs[j][1]])
            self.prog.tops.append(app(n("fun", f=fname), e))
            self.prog.tops.append(self.show(e, t))

    def generate(self):
        r = self.rng
        self.poly_decls()
        if self.many:
            self.many_constructors()
        else:
            self.data_decls(r.choice([3, 4, 5]))
        self.functions(r.choice([1, 2]))
        # values of every declared type, moved around and shown
        for name in sorted(self.datas):
            t = ("data", name) + tuple(self.rtype(1, fn=False) for _ in self.datas[name][0])
            for wrap in r.sample(["plain", "opt", "tup", "ref", "arr", "poly", "clo", "swap"], 3):
                self.budget = 40
                e = self.expr(t, [], 4)
                tt = t
                if wrap == "opt":
                    e, tt = con("some", e), ("opt", t)
                elif wrap == "tup":
                    o = self.rtype(1, fn=False)
                    e, tt = con("tup", self.expr(o, [], 2), e, self.expr(o, [], 1)), ("tup", o, t, o)
                elif wrap == "ref":
                    x = self.fresh("r")
                    e = let([(x, n("ref", es=[self.base(t, [])]))], begin(n("set", es=[e, var(x)]), n("get", es=[var(x)])))
                elif wrap == "arr":
                    e, tt = self.array(("arr", t), [e, self.expr(t, [], 3)]), ("arr", t)
                elif wrap == "poly":
                    e = app(n("fun", f=self.p + "unopt"), self.base(t, []), con("some", app(n("fun", f=self.p + "id"), e)))
                elif wrap == "clo":
                    x = self.fresh("c")
                    e = let([(x, e)], app(let([], var("f"), [("f", [], var(x))])))
                elif wrap == "swap":
                    o = self.rtype(1, fn=False)
                    e = app(n("fun", f=self.p + "snd"), con("tup", self.expr(o, [], 2), e))
                self.prog.tops.append(self.show(e, tt))
            # a match over the type with overlapping clauses
            self.budget = 40
            cl, full = [], False
            for _ in range(r.choice([1, 2, 3])):
                p, b = self.pattern(t, 3, [])
                if self.irrefutable(p, t) or any(self.covers(q, p) for q, _ in cl):
                    continue
                cl.append((p, b))
            cl.append((PW, []))
            x = self.fresh("m")
            cl = [(p, begin(*[self.show(var(y), u) for y, u in b], print_(string(f"clause {i}")))) for i, (p, b) in enumerate(cl)]
            if self.exact(t, [p for p, _ in cl]):
                fname = f"{self.p}k{len(self.prog.funs)}"
                self.prog.funs.append((fname, ["x"], match(var("x"), *cl), ty(("fn", (t,), U))))
                for _ in range(3):
                    self.budget = 20
                    self.prog.tops.append(app(n("fun", f=fname), self.expr(t, [], 3)))
        return self.prog

    def covers(self, p, q):
        """Does p accept everything q does (syntactically)?"""
        while p["k"] == "var":
            p = p["p"]
        while q["k"] == "var":
            q = q["p"]
        if p["k"] == "_":
            return True
        if q["k"] != p["k"]:
            return False
        if p["k"] == "con":
            return p["c"] == q["c"] and all(self.covers(a, b) for a, b in zip(p["ps"], q["ps"]))
        return (p.get("i"), p.get("s")) == (q.get("i"), q.get("s"))

    def exact(self, t, ps):
        """No clause is useless (the compiler would refuse the match): counted over the distinguishable values."""
        strip = lambda p: strip(p["p"]) if p["k"] == "var" else p

        def vals(t, P):
            heads = [strip(p) for p in P if strip(p)["k"] != "_"]
            if not heads:
                return ["*"]
            if heads[0]["k"] != "con":
                return [("lit", h.get("i"), h.get("s")) for h in heads] + [("fresh",)]
            out = []
            for c, fs in self.ctors(t):
                combos = [()]
                for j, f in enumerate(fs):
                    sub = vals(f, [h["ps"][j] for h in heads if h["c"] == c])
                    combos = [x + (y,) for x in combos for y in sub]
                    if len(combos) > 3000:
                        raise OverflowError
                out += [(c, x) for x in combos]
            return out

        def fits(p, v):
            p = strip(p)
            if p["k"] == "_":
                return True
            if p["k"] == "con":
                return v[0] == p["c"] and all(fits(q, w) for q, w in zip(p["ps"], v[1]))
            return v == ("lit", p.get("i"), p.get("s"))
        try:
            rest = vals(t, ps)
        except OverflowError:
            return False
        for p in ps:
            new = [v for v in rest if fits(p, v)]
            if not new:
                return False
            rest = [v for v in rest if not fits(p, v)]
        return True


def run(c):
    c.build(harness=False)
    progs = [DataGen(c.rng, f"g{i}", f"g{i}", nums=c.rng.choice([0.1, 0.4, 0.6]), wide=c.rng.random() < 0.6).generate()
             for i in range(c.pick(120, 2500))]
    check_programs(c, progs, "data", batch=12)
    big = []
    for i in range(c.pick(10, 60)):
        g = DataGen(c.rng, f"m{i}", f"m{i}", nums=0.3)
        g.many = True
        big.append(g.generate())
    check_programs(c, big, "many-constructor", batch=2)
    c.assumptions = ["number values are opaque tokens to the model (their displayed form identifies them)"]


if __name__ == "__main__":
    main("P02", run)
