"""P11: sets of modules against Names.tla. The specification says which modules are well-formed and what every
name in them means; the modules are then written out so that they type-check only with exactly these meanings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

POOL = ["a", "b", "ab", "ba", "aa", "bab", "abb"]
KINDS = ["fun"] * 4 + ["data"] * 3 + ["class", "inst", "inst"]
PATTERNS = ["_", "_", "_", "a_", "b_", "_a", "_b", "ab_", "_ab"]
WILD = lambda t: t.startswith("_") or t.endswith("_")


def affix(t):
    return (("", t[1:]) if t[0] == "_" else (t[:-1], "")) if t != "_" else ("", "")


def take(items, rel):
    """guides generation only: the verdict is the specification's"""
    out = set()
    for t, n in items:
        n = n or t
        if not WILD(t):
            out |= {(n, c) for m, c in rel if m == t}
        elif WILD(n):
            p, s = affix(t)
            q, z = affix(n)
            out |= {(q + m[len(p):len(m) - len(s)] + z, c) for m, c in rel if len(m) > len(p) + len(s) and m.startswith(p) and m.endswith(s)}
    return out


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.kinds, self.sites = [], 0
        self.clean = rng.random() < 0.6

    def new(self, kind):
        self.kinds.append(kind)
        return len(self.kinds)

    def site(self):
        self.sites += 1
        return self.sites

    def name(self, env, top, kinds):
        """A name that, if possible, means something of these kinds."""
        r = self.r
        if not self.clean and r.random() < 0.04:
            return r.choice(POOL)
        seen, ok = set(), []
        for n, c in env:
            if n not in seen and self.kinds[c - 1] in kinds:
                ok.append((n, 2))
            seen.add(n)
        ok += [(n, 1) for n, c in sorted(top) if n not in seen and self.kinds[c - 1] in kinds]
        return r.choices([n for n, _ in ok], [w for _, w in ok])[0] if ok else None

    def binders(self, kind, k):
        names = [self.r.choice(POOL) for _ in range(k)]
        if self.clean or self.r.random() < 0.95:
            names = list(dict.fromkeys(names))
        return [{"n": n, "c": self.new(kind)} for n in names]

    def exprs(self, env, top, depth, k):
        return [e for e in (self.expr(env, top, depth) for _ in range(k)) if e]

    def expr(self, env, top, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.45:
            n = self.name(env, top, ("fun", "var", "lfun", "con"))
            return n and {"k": "val", "n": n, "s": self.site()}
        if k < 0.6:
            n = self.name(env, top, ("type", "tparam"))
            return n and {"k": "typ", "n": n, "s": self.site()}
        if k < 0.7:
            n = self.name(env, top, ("con",))
            if not n:
                return None
            vs = self.binders("var", 1)
            return {"k": "decon", "n": n, "s": self.site(), "vs": vs, "body": self.exprs(bind(vs, env), top, depth - 1, r.randrange(1, 3))}
        if k < 0.78:
            vs = self.binders("var", r.randrange(1, 4))
            return {"k": "match", "vs": vs, "body": self.exprs(bind(vs, env), top, depth - 1, r.randrange(1, 4))}
        vs = self.binders("var", r.randrange(0, 3))
        fs = self.binders("lfun", r.randrange(0, 3))
        if self.clean:
            fs = [f for f in fs if f["n"] not in [v["n"] for v in vs]]
        rec = bind(fs, env)
        for v in vs:
            v["init"] = self.exprs(rec, top, depth - 1, r.randrange(3))
        for f in fs:
            f["ps"] = self.binders("var", r.randrange(1, 3))
            f["body"] = self.exprs(bind(f["ps"], rec), top, depth - 1, r.randrange(3))
        return {"k": "let", "vs": vs, "fs": fs, "body": self.exprs(bind(vs + fs, env), top, depth - 1, r.randrange(1, 4))}

    def toplevel(self, top, insts):
        r = self.r
        k = r.random()
        if k < 0.5:
            tps = self.binders("tparam", r.randrange(2))
            ps = self.binders("var", r.randrange(3))
            for p in ps:
                p["tn"], p["s"] = "", 0
                if r.random() < 0.4:
                    n = self.name(bind(tps, []), top, ("type", "tparam"))
                    if n:
                        p["tn"], p["s"] = n, self.site()
            return {"k": "fn", "tps": tps, "ps": ps, "body": self.exprs(bind(ps, bind(tps, [])), top, 3, r.randrange(1, 4))}
        if k < 0.65:
            tps = self.binders("tparam", 1)
            n = self.name(bind(tps, []), top, ("class",))
            return n and {"k": "cls", "tps": tps, "n": n, "s": self.site()}
        if k < 0.8:
            have = [c for _, c in sorted(top) if self.kinds[c - 1] == "inst"]
            if not self.clean and r.random() < 0.1:
                have = insts
            return {"k": "inst", "c": r.choice(have)} if have else None
        return self.expr([], top, 3)

    def items(self, rel, taken, imports):
        """port items from rel that avoid clashing with the names taken, most of the time"""
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(6):
                t = r.choice(PATTERNS) if r.random() < 0.45 else r.choice(sorted({n for n, _ in rel}) or POOL) if r.random() < 0.97 else r.choice(POOL)
                n = ""
                if r.random() < (0.3 if WILD(t) else 0.4):
                    n = r.choice(PATTERNS if WILD(t) else POOL)
                    if not self.clean and r.random() < 0.03:
                        n = r.choice(PATTERNS + POOL)
                got = take([(t, n)], rel)
                ok = (got or WILD(t)) and len({x for x, _ in got | taken}) == len(got | taken)
                if ok or (not self.clean and r.random() < 0.06):
                    out.append({"t": t, "n": n})
                    taken |= got
                    break
        return out

    def modules(self):
        r = self.r
        ms, exps, owner, insts = [], [], {}, []
        for j in range(r.randrange(2, 7)):
            std = j > 0 and r.random() < 0.5
            decls, own = [], set()
            for _ in range(r.randrange(0, 4)):
                kind = r.choice(KINDS)
                for part in (["type", "con"] if kind == "data" else [kind]):
                    c = self.new(part)
                    owner[c] = j
                    n = r.choice(POOL)
                    if self.clean or r.random() < 0.97:
                        free = [x for x in POOL if x not in {y for y, _ in own} and not (std and x in {y for y, _ in exps[0]})]
                        n = r.choice(free or ["c" + "ab"[c % 2] * (c // 2)])
                    decls.append({"n": n, "c": c, "kind": part})
                    own.add((n, c))
                    if part == "inst":
                        insts.append(c)
            imports, rel = [], set(own)
            for i in r.sample(range(j), min(j, r.randrange(0, 4))):
                items = self.items(exps[i], rel, True)
                imports.append({"m": i + 1, "items": items})
                if r.random() < 0.1:
                    imports.append({"m": i + 1, "items": self.items(exps[i], rel, True)})
            top = set(rel)
            if std:
                explicit = {n for n, _ in rel - own}
                top |= {(n, c) for n, c in exps[0] if n not in explicit}
            body = [e for e in (self.toplevel(top, insts) for _ in range(r.randrange(0, 5))) if e]
            out = set()
            exports = self.items(top, out, False) if r.random() < 0.9 else []
            ms.append({"std": std, "imports": imports, "decls": decls, "body": body, "exports": exports})
            exps.append(out)
        return ms, owner


def bind(bs, env):
    return [(b["n"], b["c"]) for b in bs] + env


def letters(x):
    """names as sequences of letters, for the specification"""
    if isinstance(x, dict):
        return {k: list(v) if k in ("n", "t", "tn") else letters(v) for k, v in x.items()}
    return [letters(y) for y in x] if isinstance(x, list) else x


class Emit:
    """Writes out module j so that each use is well-typed only with the meaning that the specification gives it."""

    def __init__(self, case, j, uses):
        self.case, self.j, self.m, self.uses = case, j, case["mods"][j], uses
        self.kinds = case["kinds"]
        self.need, self.types, self.sig, self.params, self.n = set(), {}, {}, {}, 0

    def res(self, what):
        """the witness of construct what, imported if it is another module's"""
        if self.case["owner"][what] != self.j:
            self.need.add(what)
        return f"zqum{what}"

    def seq(self, es):
        s = "zqbu"
        for e in reversed(es):
            s = f"(zqbseq {self.e(e)} {s})"
        return s

    def pattern(self, vs):
        return f"(zqbp (let {vs[0]['n']}) {self.pattern(vs[1:])})" if vs else "_"

    def value(self, vs):
        return f"(zqbp zqbc{vs[0]['c']} {self.value(vs[1:])})" if vs else "zqbu"

    def e(self, x):
        k, n = x["k"], x.get("n")
        c = self.uses.get(x.get("s"))
        kind = c and self.kinds[c - 1]
        if k == "val":
            if c is None:
                return f"(zqbany {n})"
            if kind == "lfun":
                return f"(zqbany (annotate ({n}{''.join(' zqbc%d' % p for p in self.params[c])}) zqbT{c}))"
            if kind == "con":
                return f"(zqbany ({n} zqbc{c}))"
            if c in self.sig:
                return f"(zqbsame {n} {self.sig[c]})"
            return f"(zqbany (annotate {n} zqbT{self.types.get(c, c)}))"
        if k == "typ":
            if c is None:
                return f"(zqbany (annotate zqbu {n}))"
            return f"(zqbany (annotate {'zqx%d' % c if kind == 'tparam' else self.res(c)} {n}))"
        if k == "decon":
            self.types.update({v["c"]: c or v["c"] for v in x["vs"]})
            return f"(match {self.res(c) if c else 'zqbu'} [({n} (let {x['vs'][0]['n']})) {self.seq(x['body'])}])"
        if k == "match":
            return f"(match {self.value(x['vs'])} [{self.pattern(x['vs'])} {self.seq(x['body'])}])"
        if k == "let":
            for f in x["fs"]:
                self.params[f["c"]] = [p["c"] for p in f["ps"]]
            defs = [f"[{v['n']} (zqbr{v['c']} {self.seq(v['init'])})]" for v in x["vs"]]
            defs += [f"[({' '.join([f['n']] + [p['n'] for p in f['ps']])}) (zqbr{f['c']} {self.seq(f['body'])})]" for f in x["fs"]]
            random.Random(len(defs) + x.get("s", 0)).shuffle(defs)
            return f"(let ({' '.join(defs)}) {self.seq(x['body'])})"
        if k == "inst":
            return f"(zqbm zqbc{x['c']})"
        raise ToolError(k)

    def top(self, x):
        self.n += 1
        name = f"zqt{self.j}x{self.n}"
        if x["k"] == "fn":
            t = x["tps"][0] if x["tps"] else None
            zq = f"zqx{t['c']}" if t else "zqx"
            tys = [t["n"] if t else "zqbU"]
            for p in x["ps"]:
                c = self.uses.get(p["s"])
                tys.append(p["tn"] or f"zqbT{p['c']}")
                if c:
                    self.sig[p["c"]] = zq if self.kinds[c - 1] == "tparam" else self.res(c)
            return f"(function ({' '.join([name, zq] + [p['n'] for p in x['ps']])}) {{{'(forall %s) ' % t['n'] if t else ''}(-> {' '.join(tys)} zqbU)}} {self.seq(x['body'])})"
        if x["k"] == "cls":
            c, t = self.uses.get(x["s"]), x["tps"][0]["n"]
            return f"(function ({name} zqz) {{(forall {t}) (-> {t} zqbU) (where ({x['n']} {t}))}} {'(%s zqz)' % self.res(c) if c else 'zqbu'})"
        return f"(function {name} {{zqbU}} {self.e(x)})"

    def ports(self, items):
        return " ".join(f"[{i['n']} {i['t']}]" if i["n"] else i["t"] for i in items)

    def text(self):
        m, out = self.m, []
        for d in m["decls"]:
            n, c = d["n"], d["c"]
            if d["kind"] == "fun":
                out.append(f"(function {n} {{zqbT{c}}} zqbc{c})")
            elif d["kind"] == "type":
                con = m["decls"][m["decls"].index(d) + 1]
                out.append(f"(value-data {n} ({con['n']} zqbT{con['c']}))")
                out += [f"(function zqum{x} {{{n}}} ({con['n']} zqbc{con['c']}))" for x in (c, con["c"])]
            elif d["kind"] == "class":
                out.append(f"(class ({n} A) (function (zqum{c} x) {{(-> A zqbU)}}))")
            elif d["kind"] == "inst":
                out.append(f"(instance {n} (zqbC zqbT{c}) (function (zqbm x) {{(-> zqbT{c} zqbU)}} zqbu))")
        out += [self.top(x) for x in m["body"]]
        out += [f"(import \"{path(i['m'] - 1)}\" {self.ports(i['items'])})" for i in m["imports"]]
        out += [f"(export {self.ports(m['exports'])})", "(export zqu_)"]
        out += [f"(import \"{path(self.case['owner'][c])}\" zqum{c})" for c in sorted(self.need)]
        random.Random(len(out)).shuffle(out)
        return "\n".join(([] if m["std"] else ["(no-implicit-std)"]) + ['(import "std/zq" _)'] + out) + "\n"


def path(j):
    return "std" if j == 0 else f"~/m{j}"


def base(n):
    s = "(no-implicit-std)\n(value-data zqbU zqbu)\n(value-data (zqbP A B) (zqbp A B))\n(function (zqbany x) {(forall A) (-> A zqbU)} zqbu)\n" \
        "(function (zqbsame x y) {(forall A) (-> A A zqbU)} zqbu)\n(function (zqbseq x y) {(-> zqbU zqbU zqbU)} zqbu)\n(class (zqbC A) (function (zqbm x) {(-> A zqbU)}))\n(export zqb_)\n"
    for k in range(1, n + 1):
        s += f"(value-data zqbT{k} zqbc{k})\n(function (zqbr{k} x) {{(forall A) (-> A zqbT{k})}} zqbc{k})\n"
    return s


def run(c):
    c.build(llrl0=False)
    c.tlc("NamesLaws", timeout=300)
    n = c.pick(2500, 25000)
    cases = []
    for j in range(n):
        g = Gen(c.rng)
        mods, owner = g.modules()
        cases.append({"id": j, "mods": mods, "owner": owner, "kinds": g.kinds})
    for k in range(0, n, 2500):
        judge(c, cases[k:k + 2500])


def judge(c, cases):
    res = c.tlc_batch("Names", [{"id": x["id"], "mods": letters(x["mods"]), "kinds": x["kinds"] or ["var"]} for x in cases], timeout=900)
    jobs = []
    for x in cases:
        m = x["model"] = res[x["id"]]["mods"]
        mods = {"std/zq": base(len(x["kinds"]))}
        for j, v in enumerate(m):
            mods[path(j)] = Emit(x, j, {u["s"]: u["c"] for u in v["u"]}).text()
        jobs.append({"id": x["id"], "mods": mods, "entries": [path(j) for j in range(len(m))]})
    got = c.harness("build", jobs)
    for x, job in zip(cases, jobs):
        g, c_ = got[x["id"]], x["model"]
        c.validated()
        if g.get("stage") != "module":
            c.violation(f"modules do not get to be built: {g}", {"mods": job["mods"], "got": g})
            continue
        errs = {e["path"]: e for e in g["errors"]}
        for j, v in enumerate(c_):
            e = errs.get(path(j))
            src = job["mods"][path(j)]
            c.part({"ok": "well-formed", "bad": "ill-formed", "dep": "dependent"}[v["st"]], 1)
            for q in v["errs"]:
                c.part(q["v"], 1)
            if v["st"] == "ok":
                c.part("names resolved", len(v["u"]))
                if e:
                    c.violation(f"module {path(j)} is well-formed, but: {e['msg']}\n{src}", {"mods": job["mods"], "got": g, "model": c_})
                    break
                c.sample(src[:300])
            elif v["st"] == "dep":
                if not e or e["err"] != "DependentModuleBuildFailed":
                    c.violation(f"module {path(j)} depends on a failing one, but: {e}", {"mods": job["mods"], "got": g, "model": c_})
                    break
            elif not e or not fits(e, v["errs"]):
                c.violation(f"module {path(j)} should be refused ({[(q['v'], q['k'], ''.join(q['n'])) for q in v['errs']]}), but: {e and e['msg']}\n{src}", {"mods": job["mods"], "got": g, "model": c_})
                break


def fits(e, errs):
    import re
    if any(q["v"] == "MultipleDeclarations" or q["k"] == "import-target" for q in errs) and e["err"] == "Unresolved":
        return True  # what a clash or a missing import leaves unresolved is left open
    return any(q["v"] == e["err"] and (not q["n"] or re.search(r"(^|[^\w])" + re.escape("".join(q["n"])) + r"($|[^\w])", e["msg"])) for q in errs)


if __name__ == "__main__":
    main("P11", run)
