"""P12: the preprocessor against Preproc.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sexp import *

FEATS = ["llvm", "chibi-backend", "x", "", "$a"]
METAS = ["$a", "$b", "$c", "$", "$let", "$x.y"]
WORDS = ["foo", "bar", "a", "-", "...", "when", "_", "a$b", "quote", "unquote", "let", "$"]


class Gen:
    def __init__(self, rng, wild):
        self.r, self.wild, self.left = rng, wild, rng.choice([8, 15, 30, 60])

    def p(self, x):
        return self.r.random() < x

    def atom(self):
        r = self.r
        k = r.randrange(8)
        if k < 3:
            return sym(r.choice(WORDS[:-1]))
        if k == 3:
            return string(r.choice(["", "x", "llvm", "a b", "$a", "q\"\\\n"]))
        if k == 4:
            return {"k": "chr", "s": r.choice(["a", "$", " ", "\n", "λ"])}
        if k == 5:
            return boolean(r.random() < 0.5)
        return num(r.choice([0, 1, 12, -3, 1 << 63]))

    def name(self):
        return self.r.choice(METAS[:4] if self.p(0.9) else METAS)

    def tree(self, env, depth=4, one=False):
        """env: {name: kind} where kind is 'any', 'list' or 'bool'."""
        r = self.r
        self.left -= 1
        if self.left < 0 or depth <= 0:
            if env and self.p(0.6):
                return sym(r.choice(sorted(env)))
            return self.atom()
        if self.p(self.wild):
            return sym(r.choice(METAS))
        k = r.random()
        if k < 0.2:
            return self.atom()
        if k < 0.45 and env:
            return sym(r.choice(sorted(env)))
        if k < 0.6:
            return lst(*self.trees(env, depth - 1, r.randrange(5)))
        if k < 0.68:
            t = self.tree(env, depth - 1, True)
            h = self.trees(env, depth - 1, r.randrange(1, 4))
            return cons(h, t)
        if k < 0.73:
            return lst(sym(r.choice(["quote", "quasiquote", "unquote", "capture"])), self.tree(env, depth - 1, True))
        return self.directive(env, depth, one)

    def trees(self, env, depth, n):
        return [self.tree(env, depth) for _ in range(n)]

    def one(self, env, depth):
        return self.tree(env, depth, True)

    def boolean(self, env, depth):
        bs = [n for n in env if env[n] == "bool"]
        k = self.r.random()
        if k < 0.3 or depth <= 0:
            return boolean(self.p(0.5))
        if k < 0.45 and bs:
            return sym(self.r.choice(bs))
        if k < 0.7:
            return lst(sym("$not"), self.boolean(env, depth - 1))
        if self.p(self.wild):
            return self.one(env, depth - 1)
        return lst(sym("$feature"), string(self.r.choice(FEATS)))

    def listof(self, env, depth, f):
        ls = [n for n in env if env[n] == "list"]
        if ls and self.p(0.2) and f is None:
            return sym(self.r.choice(ls))
        f = f or (lambda: self.tree(env, depth - 1))
        k = self.r.random()
        items = [f() for _ in range(self.r.randrange(4))]
        if k < 0.15:
            items.insert(self.r.randrange(len(items) + 1), lst(sym("$when"), self.boolean(env, 1), f()))
        return lst(*items)

    def body(self, env, depth, one):
        n = 1 if one and not self.p(self.wild) else self.r.choice([0, 1, 1, 2, 3])
        return [self.tree(env, depth, one) for _ in range(n)]

    def directive(self, env, depth, one):
        r = self.r
        d = depth - 1
        k = r.randrange(12 if not one else 7)
        kind = lambda: r.choice(["any", "any", "list", "bool"])
        val = lambda kd: self.one(env, d) if kd == "any" else self.listof(env, d, None) if kd == "list" else self.boolean(env, 2)
        nm = lambda: "_" if self.p(0.1) else self.name()
        if k < 3:
            kd, n = kind(), nm()
            t = [sym("$let1"), sym(n), val(kd)]
            t += self.body({**env, n: kd} if n != "_" else env, d, one)
        elif k < 5:
            bs, e2 = [], dict(env)
            for _ in range(r.randrange(4)):
                kd, n = kind(), nm()
                bs.append(lst(sym(n), val(kd)))
                if n != "_":
                    e2[n] = kd
            t = [sym("$let"), lst(*bs)] + self.body(e2, d, one)
        elif k == 5:
            t = [sym("$symbol")] + [r.choice([sym(r.choice(WORDS[:-1])), string(r.choice(["", "x", "$", "é"])), {"k": "chr", "s": "c"},
                                             *[sym(n) for n in env if env[n] == "any" and self.p(self.wild * 3)]]) for _ in range(r.randrange(1, 4))]
        elif k == 6:
            t = self.boolean(env, 3)
            return t
        elif k == 7 or k == 8:
            t = [sym("$when"), self.boolean(env, 2)] + self.body(env, d, False)
        elif k < 11:
            kd, n = kind(), nm()
            t = [sym("$for1"), sym(n), self.listof(env, d, (lambda: self.one(env, d - 1)) if kd == "any" else (lambda: lst()) if kd == "list" else (lambda: boolean(self.p(0.5))))]
            if kd != "any":
                kd = "any" if t[2]["k"] == "sym" else kd
            t += self.body({**env, n: kd} if n != "_" else env, d, False)
        else:
            ns = [nm() for _ in range(r.randrange(4))]
            rows = self.listof(env, d, lambda: lst(*[self.one(env, d - 2) for _ in range(len(ns) if not self.p(self.wild) else r.randrange(4))]))
            t = [sym("$for"), lst(*[sym(n) for n in ns]), rows] + self.body({**env, **{n: "any" for n in ns if n != "_"}}, d, False)
        t = lst(*t)
        if self.p(self.wild) and t["l"]:                          # damage it
            j = r.randrange(len(t["l"]))
            w = r.randrange(4)
            if w == 0:
                del t["l"][j]
            elif w == 1:
                t["l"].insert(j, self.atom())
            elif w == 2:
                t["l"][j] = self.atom()
            elif len(t["l"]) > 1:
                t = cons(t["l"][:-1], t["l"][-1])
        return t


def cons(h, t):
    if not h:
        return t
    if t["k"] == "list":
        return lst(*h, *t["l"])
    if t["k"] == "dot":
        return {"k": "dot", "l": h + t["l"], "t": t["t"]}
    return {"k": "dot", "l": h, "t": t}


def case(rng, j):
    g = Gen(rng, rng.choice([0, 0, 0, 0.01, 0.03, 0.1]))
    ts = [g.tree({}, 6) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    return {"id": j, "ts": ts, "fs": [f for f in FEATS if rng.random() < 0.4]}


FIXED = [  # shapes on which scopes are easily confused
    '($let ([$a 1] [$a 2]) $a) $a', '($let1 $a 0 ($let ([$a 1] [$a 2]) $a) $a)', '($for [$a $a] ([1 2] [3 4]) $a)', '($let1 $a 1 ($let ([$a 2] [$b $a]) $a $b))',
    '($let1 _ 1 _)', "($for [] ([] []) x)", "($for [] () x)", "($for1 $ () $)", "(x . ($when #f y))", "(($when #f a) . b)", "(($when #f a) . (b))", "($when #f $undefined)",
    "'$a", "($let1 $a 1 '$a `(,$a ,@$a))", "($let1 $a b ($symbol $a \"-\" #\\c))", "($let1 $a ($let1 $a 1 $a) $a)", "($let1 $a '$b $a)", "$let", "($let1 $let 3 ($let () $let))",
    "($let1 $a (1 2) (0 . $a))", "($let1 $a (1 . 2) (0 . $a))", "($let1 $a () (0 . $a))", "($not ($not #t))", "($not #t #f)", "($feature x)", "($feature \"x\" \"y\")", "($feature)",
    "($symbol)", "($symbol \"\")", "($symbol 1)", "($when)", "($when 1)", "($when #t)", "($let)", "($let1 $a)", "($for1 $a (1 . 2) $a)", "($for [$a] ([1] . 2) $a)", "($for [$a . $b] () $a)",
    "($let ([$a 1] . x) 1)", "($let1 $a 1 . 2)", "(a $let1 $b 1 $b)", "(($let1 $f $symbol $f) a b)", "(($symbol \"$\" \"symbol\") a b)", "($let1 $a ($symbol \"$\" b) $a)", "($let ([_ 1] [_ 2]) _)",
    "($for1 $a (1 2) ($let1 $a ($a $a) $a) $a)", "($for1 $a ($for1 $b (1 2) $b) $a)", "($let1 $x ($for1 $b (1) $b) $x)", "($let1 $x ($for1 $b () $b) $x)", "()", "", "x {$a}", "($let1 $a b x {$a}? !)"]


def run(c):
    c.build(llrl0=False)
    n = c.pick(6000, 60000)
    recs = []
    r0 = c.harness("pre", [{"id": j, "text": t, "feats": []} for j, t in enumerate(FIXED)])
    for j, t in enumerate(FIXED):
        if "trees" not in r0[j]:
            c.violation(f"{t} is not read: {r0[j]}", {"text": t, "got": r0[j]})
        else:
            recs.append({"id": j, "ts": r0[j]["trees"], "fs": [], "text": t})
    for j in range(len(FIXED), n):
        r = case(c.rng, j)
        r["text"] = " ".join(text(t, c.rng) for t in r["ts"])
        recs.append(r)
    judge(c, recs)


def judge(c, recs):
    got = c.harness("pre", [{"id": r["id"], "text": r["text"], "feats": r["fs"]} for r in recs])
    live = []
    for r in recs:
        g = got[r["id"]]
        if g.get("trees") != r["ts"]:
            # reading is not this check's business, but the input must be what the model is told
            c.part("misread", 1)
            if "panic" in g or "crash" in g:
                c.violation(f"{r['text']} (features {r['fs']}): {g}", {"text": r["text"], "got": g})
            continue
        live.append(r)
    if len(live) < len(recs) * 99 // 100:
        bad = next(r for r in recs if got[r["id"]].get("trees") != r["ts"])
        raise ToolError(f"programs are not read as they were meant: {bad['text']}: {got[bad['id']]}")
    for k in range(0, len(live), 4000):
        part = live[k:k + 4000]
        res = c.tlc_batch("Preproc", [{x: r[x] for x in ("id", "ts", "fs")} for r in part], timeout=900)
        for r in part:
            m, g = res[r["id"]], got[r["id"]]
            c.validated()
            c.part("expands" if m["ok"] else "error", 1)
            if m["ok"] and m["l"] != r["ts"]:
                c.part("changed", 1)
            if g.get("ok") != m["ok"] or (m["ok"] and g["l"] != m["l"]):
                want = "\n".join(text(t) for t in m["l"]) if m["ok"] else "an error"
                is_ = "\n".join(text(t) for t in g["l"]) if g.get("ok") else g
                c.violation(f"{r['text']} (features {r['fs']}) becomes\n{is_}\ninstead of\n{want}", {"text": r["text"], "fs": r["fs"], "got": g, "model": m})
            else:
                c.sample(r["text"][:200])


if __name__ == "__main__":
    main("P12", run)
