"""P10: executions of generated module graphs are behaviours of InitOrder.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CH = "abcdefghijklmnopqrstuvwxyz"


def graph(rng, n, std):
    """A random acyclic graph over modules 1..n; names and the order of declaration are shuffled."""
    shape = rng.random()
    imports = []
    for m in range(1, n + 1):
        below = list(range(1, m))
        if shape < 0.2 and below:
            ds = [m - 1] + [d for d in below[:-1] if rng.random() < 0.2]
        elif shape < 0.4:
            ds = [d for d in below if rng.random() < 0.8]
        else:
            ds = rng.sample(below, min(len(below), rng.randrange(0, 4)))
        rng.shuffle(ds)
        imports.append(ds)
    stmts = [rng.choice([0, 1, 1, 2, 3, 6]) for _ in range(n)]
    entries = rng.sample(range(1, n + 1), min(n, rng.choice([1, 1, 1, 2, 3, n])))
    if rng.random() < 0.6 and n not in entries:
        entries[-1] = n
    return {"n": n, "imports": imports, "stmts": stmts, "entries": entries, "std": std,
            "slow": [rng.random() < 0.25 for _ in range(n)], "pkg": [rng.random() < 0.3 and not std for _ in range(n)]}


def sources(g, rng):
    """({file: text}, [entry names], needs package p); each top-level expression prints its module and position."""
    n = g["n"]
    words = rng.sample(["alpha", "zed", "mid", "beta", "x", "sub/one", "sub/two", "deep/er/three", "omega", "k", "y2", "w-w", "prelude"], n)
    where = {}
    for m in range(1, n + 1):
        where[m] = ("pk/" if g["pkg"][m - 1] and m not in g["entries"] else "") + words[m - 1]
    spell = lambda p: p[:-8] if p.endswith("/prelude") and rng.random() < 0.5 else p      # the same module
    path = lambda m, frm: spell("p/" + where[m][3:] if where[m].startswith("pk/") and not where[frm].startswith("pk/") else
                           "~/" + where[m][3:] if where[m].startswith("pk/") else "~/" + where[m])
    files = {}
    for m in range(1, n + 1):
        # modules of the package can only import from the package
        out = []
        usestd = g["std"] and rng.random() < 0.5
        body = []
        if not usestd:
            out.append('(no-implicit-std)\n(import "builtin" _)')
        else:
            out.append('(import "std/hash-map" _)')
        for d in g["imports"][m - 1]:
            form = rng.choice(["f%d", "[g%d f%d]", "_", "", "f%d _", "dup"])
            if form == "dup":
                body.append(f'(import "{path(d, m)}" f{d})')
                form = ""
            target = form.replace("%d", str(d))
            line = f'(import "{path(d, m)}"{" " + target if target else ""})'
            (out if rng.random() < 0.7 else body).append(line)
        decl = [f"(export f{m})", '(c-function putchar {(-> I32 I32)} "putchar")',
                f"(function (f{m} c) {{(-> I32 I32)}} (putchar {m + 96}) (putchar c))",
                "(function (say c) {(-> I32 I32)} (putchar c) (putchar 32))"]
        if g["slow"][m - 1]:
            decl += [f"(function (ballast{k} a b) (if a b (match b [#t (ballast{k - 1 if k else 0} b a)] [_ #f])))" for k in range(rng.choice([20, 300]))]
        ev = []
        for k in range(1, g["stmts"][m - 1] + 1):
            call = f"(f{m} {k + 48})"
            ev.append(rng.choice([call, f"(begin {call})", f"(begin (let ([t {call}]) t))", f'(if #t {call} 0)', f'(match #f [_ {call} "text"])',
                                  f"(f{m} (let ([k {k + 48}]) k))"]))
        mixed = decl + body
        rng.shuffle(mixed)
        cuts = sorted(rng.randrange(len(mixed) + 1) for _ in ev)
        res = []
        for i in range(len(mixed) + 1):
            res += [e for e, cut in zip(ev, cuts) if cut == i]
            res += mixed[i:i + 1]
        files[where[m]] = "\n".join(out + res) + "\n"
    return files, [where[e] for e in g["entries"]], any(w.startswith("pk/") for w in where.values())


def legal(g):
    # a package module cannot import a module outside it
    for m in range(g["n"], 0, -1):
        pass
    pk = lambda m: g["pkg"][m - 1] and m not in g["entries"]
    for m in range(1, g["n"] + 1):
        for d in g["imports"][m - 1]:
            if pk(m) and not pk(d):
                g["pkg"][m - 1] = False
    return all(pk(d) or not pk(m) for m in range(1, g["n"] + 1) for d in g["imports"][m - 1])


def check(c):
    c.build(harness=False)
    c.tlc("InitOrder", consts={"N": 3, "Mode": '"all"'}, props="PROPERTY Terminates\n")
    if c.thorough:
        c.tlc("InitOrder", consts={"N": 4, "Mode": '"all"'})
    work = []
    for i in range(c.pick(420, 6000)):
        n = c.rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8, 10])
        g = graph(c.rng, n, c.rng.random() < 0.06)
        while not legal(g):
            pass
        files, entries, pkg = sources(g, c.rng)
        work.append((i + 1, g, files, entries, pkg, c.rng.choice(["chibi", "chibi", "llvm"]), c.rng.random() < 0.3))

    def go(w):
        i, g, files, entries, pkg, backend, opt = w
        extra = (["-p", "p:pk"] if pkg else []) + entries[1:]
        r = run_llrl(files, entries[0], backend, opt, extra=extra, work=c.work)
        if r["stage"] != "run" or r["rc"] != 0:
            return w, None, f"{r['stage']} {r['rc']}: {r['msg']} {r['out'][:300]}"
        if not re.fullmatch(r"([a-z][0-9])*", r["out"]):
            return w, None, f"output {r['out'][:300]!r}"
        return w, [[ord(a) - 96, ord(b) - 48] for a, b in zip(r["out"][::2], r["out"][1::2])], None

    outs = pmap(go, work)
    recs = []
    for (i, g, files, entries, pkg, backend, opt), trace, bad in outs:
        if bad:
            c.violation(f"a legal module graph fails ({backend}{' -O' if opt else ''}): {bad}", {"files": files, "entries": entries})
            continue
        recs.append({"id": i, "n": g["n"], "imports": g["imports"], "stmts": g["stmts"], "entries": g["entries"], "trace": trace})
    path = os.path.join(c.work, "batch.ndjson")
    with open(path, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in recs)
    ok = {x["id"] for x in c.tlc("InitOrder", consts={"Mode": '"trace"'}, env={"BATCH": path}, timeout=1500)["lines"]}
    src = {w[0]: w for w in work}
    for r in recs:
        c.validated()
        c.part("modules", r["n"])
        c.part("top-level expressions run", len(r["trace"]))
        if r["id"] not in ok:
            i, g, files, entries, pkg, backend, opt = src[r["id"]]
            c.violation(f"top-level code ran in an order the imports do not allow ({backend}{' -O' if opt else ''}): imports {r['imports']}, "
                        f"expressions {r['stmts']}, entries {r['entries']}: ran {r['trace']}", {"record": r, "files": files, "entries": entries})
        else:
            c.sample(r, 3)


if __name__ == "__main__":
    main("P10", check)
