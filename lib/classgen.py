"""Programs for Classes.tla: classes, instances, overloaded functions and calls spread over modules.

Everything is told apart by types of no content: a method takes a proxy (P T) for each type its class is about."""
from infergen import C, G, app, con, tstr, cstr, subst, match

BASE = [C("Bool"), C("I32"), C("F64")]


class Bad(Exception):
    pass


def tvars(t): return [t["g"]] if t["k"] == "g" else [v for x in t.get("l", []) for v in tvars(x)]


app_size = con("", *[C("Any" * 20)])


class Program:
    def __init__(self, rng, pid):
        self.r, self.id, self.steps, self.deep = rng, pid, 0, False
        self.classes, self.insts, self.funs, self.mods = {}, [], [], []
        r = rng
        nm = r.choice([1, 1, 2, 2, 3])
        self.mods = [{"sees": [], "tops": []} for _ in range(nm)]
        self.make_classes(r.choice([1, 2, 3, 3, 4]))
        hide = r.random() < 0.3
        for _ in range(r.choice([2, 4, 5, 6, 8])):
            self.make_inst(r.randint(1, nm), 0.8 if hide and nm == 3 else 0.97)
        q = r.random()
        if q < 0.2 and nm == 3 and not self.cyclic():
            self.split(r.choice([0.3, 1]))
            hide = False
        if q > 0.95:
            self.chain()
        for m in range(1, nm + 1):
            self.mods[m - 1]["sees"] = [k + 1 for k, i in enumerate(self.insts) if i["m"] == m or (i["m"] < m and not (hide and r.random() < 0.35))]
        if q < 0.2 and nm == 3 and not self.cyclic():
            self.mods[1]["sees"] = [k for k in self.mods[1]["sees"] if self.insts[k - 1]["m"] == 2]
        self.settle(r.random() < 0.85)
        self.defaults = {c: [] for c in self.classes}
        self.extra = {c: None for c in self.classes}
        for c, (ps, _) in sorted(self.classes.items()):
            if r.random() < 0.4:
                self.extra[c] = [self.constraint(["X"] + (ps if r.random() < 0.3 else []), 0, 0.95) for _ in range(r.choice([0, 1, 1, 2]))]
                self.extra[c] = [x for x in self.extra[c] if "'X'" in str(x)]
        self.local, self.twins, self.twinned = False, [], 0
        self.deep = self.deep or r.random() < 0.3
        for i in self.insts:
            i["b"] = self.calls(i["m"], i["s"], i["ps"], r.choice([0, 1, 1, 2]), small=i)
            c = i["h"]["c"]
            x = self.extra[c]
            s = i["s"] + [con(y["c"], *[subst(dict(zip(self.classes[c][0], i["h"]["l"])), t) for t in y["l"]]) for y in x or []]
            i["o"] = [self.calls(i["m"], s, i["ps"] + ["X"] * (x is not None), r.choice([0, 1, 1, 2]), small=i, direct={"X"})] if r.random() < 0.4 else []
        for c, (ps, sup) in self.classes.items():
            h = con(c, *map(G, ps))
            self.defaults[c] = [x for x in self.calls(1, [h] + (self.extra[c] or []), ps + ["X"] * (self.extra[c] is not None), r.choice([0, 1, 1, 2]), small={"h": app_size}, direct={"X"}) if x["k"] != "d" or x["n"] != c]
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            self.make_fun(r.randint(1, nm))
        for m in range(1, nm + 1):
            self.mods[m - 1]["tops"] = self.calls(m, [], [], r.choice([1, 2, 3]))
            for k in [k for k in self.twins if self.funs[k]["m"] <= m]:
                f = self.funs[k]
                for _ in range(8):
                    call = {"k": "f", "n": k + 1, "l": [self.type([], 0) for _ in f["ps"]]}
                    if all(self.find(m, [], c) for c in self.needs(call)):
                        self.mods[m - 1]["tops"].append(call)
                        self.twinned += 1
                        break
        self.ran, self.reached, self.rest = 0, set(), {}
        if not self.cyclic():
            for m in self.mods:
                self.go(m["tops"], {})

    def go(self, calls, m):
        """About how much would run."""
        for c in calls:
            self.ran += 1
            if self.ran > 150:
                raise Bad
            l = [subst(m, t) for t in c["l"]]
            if c["k"] != "l":
                for x in self.needs({**c, "l": l}):
                    self.reach(x)
            if c["k"] == "l":
                for t in l:
                    self.go(c["b"], dict(m, L=t))
                continue
            if c["k"] == "f":
                f = self.funs[c["n"] - 1]
                self.go(f["b"], dict(zip(f["ps"], l)))
                continue
            for i in self.insts:
                mm = {}
                if i["h"]["c"] == c["n"] and all(match(mm, i["ps"], a, b) for a, b in zip(i["h"]["l"], l)):
                    if c["k"] == "d" and not i["o"]:
                        self.go(self.defaults[c["n"]], dict(zip(self.classes[c["n"]][0] + ["X"], l)))
                    else:
                        self.go(i["o"][0] if c["k"] == "d" else i["b"], dict(mm, X=l[-1]))
                    break

    def at(self, c):
        """The instance of a constraint without parameters, and what its parameters are."""
        for i in self.insts:
            m = {}
            if i["h"]["c"] == c["c"] and all(match(m, i["ps"], a, b) for a, b in zip(i["h"]["l"], c["l"])):
                return i, m
        return None, {}

    def supers(self, c):
        ps, sup = self.classes[c["c"]]
        return [con(x["c"], *[subst(dict(zip(ps, c["l"])), t) for t in x["l"]]) for x in sup]

    def reach(self, c):
        """What runs needs finitely many instances, none of which rests on itself: see known_findings.txt."""
        if str(c) in self.reached or any(tvars(t) for t in c["l"]):
            return
        self.reached.add(str(c))
        if len(self.reached) > 120 or self.size(c) > 30:
            raise Bad
        i, m = self.at(c)
        if i:
            for x in [con(x["c"], *[subst(m, t) for t in x["l"]]) for x in i["s"]] + self.supers(c):
                self.reach(x)
            for j in range(len(self.supers(c))):
                self.rests(c, j)
            # all methods of an instance are compiled along with it
            own = dict(zip(self.classes[c["c"]][0], c["l"]))
            for b, mm in [(i["b"], m)] + ([(i["o"][0], m)] if i["o"] else [(self.defaults[c["c"]], own)]):
                for x in self.plain(b):
                    for y in self.needs({**x, "l": [subst(mm, t) for t in x["l"]]}):
                        self.reach(y)

    def rests(self, c, j):
        if self.rest.get((str(c), j)) == 1:
            raise Bad
        i, m = self.at(c)
        if not i or (str(c), j) in self.rest:
            return
        self.rest[str(c), j] = 1
        for k, path in self.leaves(i, self.supers(i["h"])[j], 0):
            x = i["s"][k]
            x = con(x["c"], *[subst(m, t) for t in x["l"]])
            for n in path:
                self.rests(x, n)
                x = self.supers(x)[n]
        self.rest[str(c), j] = 2

    def leaves(self, i, c, d):
        def paths(x, path):
            if x == c:
                yield path
            for n, y in enumerate(self.supers(x)):
                yield from paths(y, path + [n])
        for k, x in enumerate(i["s"]):
            for p in paths(x, []):
                return [(k, p)]
        t, m = self.at(c)
        if not t or d > 20:
            return []
        return [y for x in t["s"] for y in self.leaves(i, con(x["c"], *[subst(m, a) for a in x["l"]]), d + 1)]

    def split(self, p):
        """Two modules that do not see each other's instances define overlapping ones."""
        r = self.r
        for i in [i for i in self.insts if i["m"] == 1 and r.random() < p]:
            h = i["h"] if r.random() < 0.5 else con(i["h"]["c"], *[t if r.random() < 0.6 else G("A") for t in i["h"]["l"]])
            ps = [x for x in ["A", "B"] if f"'{x}'" in str(h)]
            self.insts.append({"n": f"I{len(self.insts)}{self.id}", "m": 2, "ps": ps, "s": [], "h": h, "b": []})

    def chain(self):
        """An instance that holds of ever larger types."""
        c = self.r.choice([c for c in self.classes if len(self.classes[c][0]) == 1] or [None])
        if c:
            self.deep = True
            self.insts = [i for i in self.insts if i["h"]["c"] != c]
            for ps, s, t in ([], [], self.r.choice(BASE)), (["A"], [con(c, G("A"))], app("Opt", G("A"))):
                self.insts.append({"n": f"I{len(self.insts)}x{self.id}", "m": 1, "ps": ps, "s": s, "h": con(c, t), "b": []})

    def type(self, ps, d=2):
        r, q = self.r, self.r.random()
        if self.deep and d and q < 0.25:
            t = self.type(ps, 0)
            for _ in range(r.choice([3, 8, 12, 16])):
                t = app("Opt", t)
            return t
        if ps and q < 0.5:
            return G(r.choice(ps))
        if d == 0 or q < 0.7:
            return r.choice(BASE)
        return app("Opt", self.type(ps, d - 1)) if r.random() < 0.6 else app("Pair", self.type(ps, d - 1), self.type(ps, d - 1))

    def constraint(self, ps, d=1, plain=0.6, below=None):
        r = self.r
        c = r.choice([x for x in self.classes if below is None or x in below])
        n = len(self.classes[c][0])
        if ps and r.random() < plain:
            return con(c, *[G(r.choice(ps)) for _ in range(n)])
        return con(c, *[self.type(ps, d) for _ in range(n)])

    def make_classes(self, n):
        r = self.r
        for k in range(n):
            ps = r.choice([["A"]] * 6 + [["A", "B"]] * 3 + [["A", "B", "C"]])
            sup = []
            if self.classes:
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    c = self.constraint(ps, 1, 0.85)
                    if c not in sup:
                        sup.append(c)
            self.classes[f"K{k}{self.id}"] = (ps, sup)
        if r.random() < 0.04:
            ps, sup = self.classes[r.choice(sorted(self.classes))]
            sup.append(self.constraint(ps, 1, 0.85))

    def cyclic(self):
        seen = {}

        def go(c):
            if seen.get(c) == 1:
                return True
            if seen.get(c) == 2:
                return False
            seen[c] = 1
            if any(go(x["c"]) for x in self.classes[c][1]):
                return True
            seen[c] = 2
            return False
        return any(go(c) for c in self.classes)

    @staticmethod
    def unify(a, b):
        """Whether two heads may overlap (only to choose what to generate)."""
        if a["k"] == "g" or b["k"] == "g":
            return True
        if a["k"] != b["k"]:
            return False
        if a["k"] == "a":
            return a["f"] == b["f"] and len(a["l"]) == len(b["l"]) and all(Program.unify(x, y) for x, y in zip(a["l"], b["l"]))
        return a == b

    def make_inst(self, m, apart):
        r = self.r
        for _ in range(8):
            c = r.choice(sorted(self.classes))
            ps = r.choice([[], [], ["A"], ["A"], ["A", "B"]])
            h = con(c, *[self.type(ps, 2) for _ in self.classes[c][0]])
            near = [i["h"] for i in self.insts if len(i["h"]["l"]) > 1 and i["m"] <= m]
            if near and r.random() < 0.3:                # one that differs from another in one place
                h = r.choice(near)
                j = r.randrange(len(h["l"]))
                c, ps = h["c"], sorted({p for p in "AB" if f"'{p}'" in str(h)})
                h = con(c, *h["l"][:j], self.type(ps, 0), *h["l"][j + 1:])
            ps = [p for p in ps if p in str(h)]
            if any(h["c"] == i["h"]["c"] and all(map(self.unify, h["l"], i["h"]["l"])) for i in self.insts) and r.random() < apart:
                continue
            s = []
            if ps:
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    s.append(self.constraint(ps, 1, 0.85))
                # often what its superclasses need
                cps, sup = self.classes[c]
                for x in sup:
                    y = con(x["c"], *[subst(dict(zip(cps, h["l"])), t) for t in x["l"]])
                    if "'g'" in str(y) and r.random() < 0.5:
                        s.append(y)
            # with superclasses, premises larger than the head would need ever more instances at run time
            if any(sup for _, sup in self.classes.values()):
                s = [x for x in s if self.size(x) <= self.size(h)]
            self.insts.append({"n": f"I{len(self.insts)}{self.id}", "m": m, "ps": ps, "s": s, "h": h, "b": []})
            return

    # --- a guess of what holds
    def given(self, cs):
        out = []
        for c in cs:
            ps, sup = self.classes[c["c"]]
            out += [c] + self.given([con(x["c"], *[subst(dict(zip(ps, c["l"])), t) for t in x["l"]]) for x in sup])
        return out

    @staticmethod
    def size(c): return max(str(t).count("'k'") for t in c["l"])

    def find(self, m, given, c, d=0, unsafe=()):
        if c in unsafe:
            raise Bad
        self.steps += 1
        if self.steps > 4000:
            raise Bad
        if d > 20:
            return False
        if c in given:
            return True
        for k in self.mods[m - 1]["sees"]:
            i = self.insts[k - 1]
            mm = {}
            if i["h"]["c"] == c["c"] and all(match(mm, i["ps"], a, b) for a, b in zip(i["h"]["l"], c["l"])):
                return all(self.find(m, given, con(x["c"], *[subst(mm, t) for t in x["l"]]), d + 1, unsafe) for x in i["s"])
        return False

    def settle(self, drop_them):
        if self.cyclic():
            return
        while True:
            drop = []
            for k, i in enumerate(self.insts):
                ps, sup = self.classes[i["h"]["c"]]
                # a premise that is not smaller than the head may itself rest on this instance: see known_findings.txt
                small = [x for x in i["s"] if self.size(x) < self.size(i["h"])]
                g = self.given(small) + i["s"]
                above = [y for x in i["s"] if x not in small for y in self.given([x])[1:]]
                if not all(self.find(i["m"], g, con(x["c"], *[subst(dict(zip(ps, i["h"]["l"])), t) for t in x["l"]]), 0, above) for x in sup):
                    drop.append(k + 1)
            if not drop or not drop_them:
                return
            for k in reversed(drop):
                del self.insts[k - 1]
                for m in self.mods:
                    m["sees"] = [j - (j > k) for j in m["sees"] if j != k]

    def localfun(self, m, s, ps, direct):
        """A local function; what its argument must satisfy is found out by using it."""
        r = self.r
        l = [t for t in [self.type(ps, 1) for _ in range(r.choice([1, 2, 2]))] if t["k"] == "g" or not set(tvars(t)) & set(direct)]
        b = []
        for _ in range(12):
            if len(b) == 2:
                break
            inner = self.calls(m, s, ps + ["L", "L"], 1, depth=1, check=False, direct=direct)
            if not inner or not all(x["k"] == "g" or not set(tvars(x)) & {"L"} for c in inner for x in c["l"]):
                continue
            given = self.given(s)
            if r.random() < 0.02 or all(self.find(m, given, c) or set(v for u in c["l"] for v in tvars(u)) & set(direct) for t in l for x in inner for c in self.needs({**x, "l": [subst({"L": t}, y) for y in x["l"]]})):
                b += inner
        if not b or not l:
            return None
        self.local = True
        return {"k": "l", "b": b, "l": l}

    def needs(self, call):
        if call["k"] == "m":
            return [con(call["n"], *call["l"])]
        if call["k"] == "d":
            ps = self.classes[call["n"]][0]
            return [con(call["n"], *call["l"][:len(ps)])] + [con(x["c"], *[subst(dict(zip(ps + ["X"], call["l"])), t) for t in x["l"]]) for x in self.extra[call["n"]] or []]
        f = self.funs[call["n"] - 1]
        s = f["s"]
        if f["inf"]:
            s = [c for x in self.plain(f["b"]) for c in self.needs(x) if any(tvars(t) for t in c["l"])]
        return [con(x["c"], *[subst(dict(zip(f["ps"], call["l"])), t) for t in x["l"]]) for x in s]

    @staticmethod
    def plain(calls):
        for c in calls:
            if c["k"] != "l":
                yield c
            else:
                for t in c["l"]:
                    for x in c["b"]:
                        yield {**x, "l": [subst({"L": t}, y) for y in x["l"]]}

    def calls(self, m, s, ps, n, small=None, depth=0, check=True, direct=()):
        r, out = self.r, []
        if self.cyclic():
            return out
        given = self.given(s)
        for _ in range(n * 6):
            if len(out) == n:
                break
            fs = [k for k, f in enumerate(self.funs) if f["m"] <= m] if not small else []
            if depth == 0 and not small and r.random() < 0.15:
                call = self.localfun(m, s, ps, direct)
                if call:
                    out.append(call)
                continue
            if given and r.random() < 0.4:
                c = r.choice(given)
                call = {"k": r.choice("md"), "n": c["c"], "l": c["l"]}
            elif fs and r.random() < 0.5:
                k = r.choice(fs)
                f = self.funs[k]
                l = [self.type(ps, r.choice([0, 1, 2])) for _ in f["ps"]]
                call = {"k": "f", "n": k + 1, "l": l}
            else:
                c = self.constraint(ps if not small or r.random() < .5 else [], 0 if small else 2, 0.3)
                call = {"k": r.choice("mmd"), "n": c["c"], "l": c["l"]}
            if call["k"] == "d" and self.extra[call["n"]] is not None:
                call["l"] = call["l"] + [self.type(ps, 0)]
            need = self.needs(call)
            if any(x["k"] != "g" and set(tvars(x)) & set(direct) for x in call["l"]):
                continue
            if small and not (len(str(call["l"])) < len(str(small["h"]["l"])) and all(x["k"] != "a" for x in call["l"])):
                continue
            if not check or all(self.find(m, given, c) or (set(v for t in c["l"] for v in tvars(t)) & (set(direct) - {"X"})) for c in need) or r.random() < 0.012:
                out.append(call)
        return out

    def make_fun(self, m):
        r = self.r
        ps = r.choice([["A"], ["A"], ["A", "B"]])
        s = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c = self.constraint(ps, 1, 0.8)
            if c not in s:
                s.append(c)
        inf = r.random() < 0.35
        if inf:
            s = []
        twin = None
        if not inf and r.random() < 0.5:                 # an instance, and an assumption that differs from it in one place
            vis = [i for i in self.insts if i["m"] <= m and len(i["h"]["l"]) > 1]
            if vis and not self.cyclic():
                i = r.choice(vis)
                l = [subst({p: r.choice(BASE) for p in i["ps"]}, t) for t in i["h"]["l"]]
                j = r.randrange(len(l))
                if con(i["h"]["c"], *l[:j], G("A"), *l[j + 1:]) not in s:
                    s.append(con(i["h"]["c"], *l[:j], G("A"), *l[j + 1:]))
                twin = con(i["h"]["c"], *l)
        b = self.calls(m, s, ps, r.choice([1, 2, 3]), depth=0, direct=set(ps) if inf else ())
        if twin and self.find(m, self.given(s), twin):
            b.insert(r.randint(0, len(b)), {"k": "m", "n": twin["c"], "l": twin["l"]})
            b.append({"k": "m", "n": s[-1]["c"], "l": s[-1]["l"]})
            self.twins.append(len(self.funs))
        self.funs.append({"n": f"f{len(self.funs)}{self.id}", "m": m, "ps": ps, "s": s, "inf": inf, "b": b})

    # --- text
    def json(self):
        return {"classes": {c: {"ps": ps, "sup": sup, "d": self.defaults[c], "x": self.extra[c] or []} for c, (ps, sup) in self.classes.items()},
                "insts": self.insts, "funs": self.funs, "mods": self.mods, "local": self.local}

    def mod(self, m): return f"{self.id}m{m}"

    def arg(self, t, direct):
        """A value that is about the type."""
        if t["k"] == "g" and t["g"] in direct:
            return direct[t["g"]]
        if not direct and t == C("I32") and self.r.random() < 0.3:
            return self.r.choice(["(about 1)", "(about 0)"])
        if not direct and t == C("F64") and self.r.random() < 0.3:
            return "(about 1.5)"
        return f"(annotate p: (P {tstr(t)}))"

    def block(self, calls, name=None, direct={}):
        out = []
        if name:
            out = [f"(ign (putchar {ord(ch)}))" for ch in name + " "]
        for c in calls:
            if c["k"] == "l":
                body = self.block(c["b"], None, {**direct, "L": "y!"})
                out.append(f"(let ([(g! y!) {body}]) " + self.block([{"k": "g", "n": "", "l": [t]} for t in c["l"]], None, direct) + ")")
                continue
            f = {"m": lambda: c["n"].lower(), "d": lambda: c["n"].lower() + "d", "f": lambda: self.funs[c["n"] - 1]["n"], "g": lambda: "g!"}[c["k"]]()
            out.append("(" + " ".join([f] + [self.arg(t, direct) for t in c["l"]]) + ")")
        return "(begin " + " ".join(out + ["unit"]) + ")"

    def texts(self):
        mods = {"base": '(no-implicit-std) (import "builtin" I32 F64 Number Number._) (export _)\n'
                        '(data (P A) p:) (data (Opt A) none (some A)) (data (Pair A B) (pair A B))\n'
                        '(c-function putchar {(-> I32 I32)} "putchar")\n(function (ign x) {(forall A) (-> A unit)} unit)\n(function (about x) {(forall A) (-> A (P A))} p:)'}
        for m in range(1, len(self.mods) + 1):
            out = ['(no-implicit-std)', '(import "builtin" Bool I32 F64 Number FPNumber Number._ FPNumber._)', '(import "~/base" _)']
            for j in range(1, m):
                names = [f["n"] for f in self.funs if f["m"] == j] + [self.insts[k - 1]["n"] for k in self.mods[m - 1]["sees"] if self.insts[k - 1]["m"] == j]
                if j == 1:
                    names += [x for c in self.classes for x in (c, c.lower(), c.lower() + "d")]
                out.append(f'(import "~/{self.mod(j)}" {" ".join(names)})')
            if m == 1:
                for c, (ps, sup) in self.classes.items():
                    xx, dx = ([], {}) if self.extra[c] is None else (["xx"], {"X": "xx"})
                    xw = f" (where {' '.join(map(cstr, self.extra[c]))})" if self.extra[c] else ""
                    out.append(f"(class {cstr(con(c, *map(G, ps)))}{' (where ' + ' '.join(map(cstr, sup)) + ')' if sup else ''} "
                               f"(function ({' '.join([c.lower()] + ['x%d' % j for j in range(len(ps))])}) {{(-> {' '.join(f'(P {p})' for p in ps)} unit)}}) "
                               f"(function ({' '.join([c.lower() + 'd'] + ['x%d' % j for j in range(len(ps))] + xx)}) "
                               f"{{{'(forall X) ' if xx else ''}(-> {' '.join(f'(P {p})' for p in ps + ['X'] * len(xx))} unit){xw}}} "
                               f"{self.block(self.defaults[c], 'd' + c, dx)}))")
            items = []
            for i in self.insts:
                if i["m"] == m:
                    fa = f" (forall {' '.join(i['ps'])})" if i["ps"] else ""
                    wh = f" (where {' '.join(map(cstr, i['s']))})" if i["s"] else ""
                    head = " ".join([i["h"]["c"].lower()] + ["x%d" % j for j in range(len(i["h"]["l"]))])
                    items.append(f"(instance {i['n']}{fa} {cstr(i['h'])}{wh} (function ({head}) {self.block(i['b'], i['n'])})" +
                                 (f" (function ({head.replace(' ', 'd ', 1)}{'' if self.extra[i['h']['c']] is None else ' xx'}) {self.block(i['o'][0], 'o' + i['n'], {'X': 'xx'})})" if i["o"] else "") + ")")
            for f in self.funs:
                if f["m"] == m:
                    wh = f" (where {' '.join(map(cstr, f['s']))})" if f["s"] else ""
                    head = " ".join([f["n"]] + ["x%d" % j for j in range(len(f["ps"]))])
                    sig = f" {{(forall {' '.join(f['ps'])}) (-> {' '.join(f'(P {p})' for p in f['ps'])} unit){wh}}}" if not f["inf"] else ""
                    direct = {p: f"x{j}" for j, p in enumerate(f["ps"])} if f["inf"] else {}
                    items.append(f"(function ({head}){sig} {self.block(f['b'], f['n'], direct)})")
            self.r.shuffle(items)
            out += items
            names = [f["n"] for f in self.funs if f["m"] == m] + [i["n"] for i in self.insts if i["m"] == m]
            if m == 1:
                names += [x for c in self.classes for x in (c, c.lower(), c.lower() + "d")]
            out.append(f"(export {' '.join(names)})" if names else "")
            out.append(self.block(self.mods[m - 1]["tops"], "@"))
            mods[self.mod(m)] = "\n".join(x for x in out if x)
        return mods
