"""P08: what a recording back end sees of parallel builds are behaviours of BuildSched.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

BROKEN = ["(function (f) {(-> I32)} nosuchname)", "(function (f) {(-> Bool)} 1)", "(function f {NoSuchType} 1)", "(function f {Bool} 1) (function f {Bool} 2)",
          '(touch "%s" "bad")', "(export missing)", "(function (f x) {(-> Bool Bool)} (match x [#t #f]))", "(function)", "(import \"%s\" nosuchimport)"]


def plan(rng, big):
    n = rng.choice([2, 3, 4, 5, 6, 8]) if not big else rng.choice([20, 40, 80])
    shape = rng.random()
    deps = []
    for m in range(1, n + 1):
        below = list(range(1, m))
        if shape < 0.15:
            ds = below[-1:]                                          # a chain
        elif shape < 0.3:
            ds = below[:1] if m < n else below                       # fan out and in
        elif shape < 0.5:
            ds = [d for d in below if rng.random() < 0.7]
        else:
            ds = rng.sample(below, min(len(below), rng.randrange(0, 4)))
        deps.append(sorted(ds))
    bad = sorted(rng.sample(range(1, n + 1), min(n, rng.choice([0, 0, 1, 1, 2, 3]))))
    return n, deps, bad


def case(c, i, big):
    rng = c.rng
    n, deps, bad = plan(rng, big)
    used = set(rng.sample(range(1, n + 1), rng.randrange(n + 1)) if not big else rng.sample(range(1, n + 1), 5))
    macros = "~/mac"
    mods, needs = {macros: '(no-implicit-std)\n(import "builtin" _)\n(export touch)\n(macro (touch s) (ok s))\n'}, []
    name = {m: f"~/m{m}" for m in range(1, n + 1)}
    if rng.random() < 0.4:
        name[rng.randrange(1, (n if big else min(n, 3)) + 1)] = "~"      # that is ~/prelude
    for m in range(1, n + 1):
        out = ["(no-implicit-std)", '(import "builtin" _)', f"(export v{m})", f"(function v{m} {{Bool}} #t)"]
        needs.append(False)
        ds = deps[m - 1][:]
        rng.shuffle(ds)
        for d in ds:
            spelled = rng.choice([["~"], ["~/prelude"], ["~", "~/prelude"], ["~/prelude", "~"]]) if name[d] == "~" else [name[d]]
            out += [f'(import "{x}" {rng.choice(["_", f"v{d}", ""]) if x is spelled[0] else ""})' for x in spelled]
            if name[d] != "~" or rng.random() < 0.5:
                continue
            b = rng.choice(["builtin", "builtin/prelude"])
            out[1] = f'(import "{b}" _)'
        if m in used:
            needs[-1] = True
            out += [f'(touch "{name[m]}" "ok")'] * rng.randrange(1, 3)
        if m in bad:
            b = rng.choice(BROKEN[:-1] if not ds else BROKEN)
            if "touch" in b:
                needs[-1] = True
                b = b % name[m]
            elif "nosuchimport" in b:
                b = b % name[ds[0]]
            out.append(b)
        if needs[-1]:
            out.insert(2, f'(import "{macros}" touch)')
        if rng.random() < 0.2:
            out += [f"(function (w{k} a b) (if a b (match b [#t (w{k - 1 if k else 0} b a)] [_ #f])))" for k in range(rng.choice([10, 200]))]
        mods[name[m]] = "\n".join(out) + "\n"
    entries = rng.sample(range(1, n + 1), rng.randrange(1, n + 1)) if not big else [n, *rng.sample(range(1, n), 3)]
    if rng.random() < 0.7 and n not in entries:
        entries.append(n)
    delays = {}
    for m in list(range(1, n + 1)):
        for w in ("add", "macro"):
            if rng.random() < (0.3 if not big else 0.1):
                delays[f"{w} {name[m]}"] = rng.choice([0, 1, 1, 3, 8])
    for m in ("builtin", macros):
        if rng.random() < 0.3:
            delays["add " + m] = rng.choice([1, 5])
    # the plan the model sees: 1 is builtin, 2 the macro module, then the reachable modules
    reach, todo, mac = set(), list(entries), False
    while todo:
        m = todo.pop()
        if m not in reach:
            reach.add(m)
            todo += deps[m - 1]
    mac = any(needs[m - 1] for m in reach)
    order = sorted(reach)
    idx = {"builtin": 1}
    if mac:
        idx[macros] = 2
    for m in order:
        idx[name[m]] = len(idx) + 1
    mdeps = [[]] + ([[1]] if mac else [])
    for m in order:
        mdeps.append([1] + ([2] if needs[m - 1] else []) + [idx[name[d]] for d in deps[m - 1]])
    rec = {"id": i, "n": len(idx), "deps": mdeps, "bad": [idx[name[m]] for m in bad if m in reach], "entries": [idx[name[m]] for m in entries]}
    return {"id": i, "mods": mods, "entries": [name[m] for m in entries], "delays": delays}, rec, idx


def check(c):
    c.build(llrl0=False)
    c.tlc("BuildPool")
    if c.thorough:
        c.tlc("BuildPool", consts={"N": 4, "Workers": 3}, timeout=1500)
    cases = [case(c, i + 1, i % 12 == 11) for i in range(c.pick(900, 12000))]
    res = c.harness("pbuild", [x[0] for x in cases], shards=6, timeout=240 if not c.thorough else 1500)
    recs, src = [], {}
    for k, rec, idx in cases:
        r = res[rec["id"]]
        src[rec["id"]] = (k, r, idx)
        if "events" not in r:
            c.violation(f"the build does not come to an end properly: {json.dumps(r)[:400]}", {"case": k, "result": r})
            if c.enough(1):
                break
            continue
        unknown = {x for e in r["events"] for x in e[1:] if isinstance(x, str) and x not in idx} | {x for x in r["built"] if x not in idx}
        if unknown:
            c.violation(f"the build involves modules nobody asked for: {unknown}", {"case": k, "result": r})
            continue
        rec["trace"] = [{"what": e[0], "mod": idx[e[1]], "of": idx[e[2]] if e[0] == "macro" and e[2] else 0, "entry": e[2] if e[0] == "add" else False} for e in r["events"]]
        rec["built"] = [idx[x] for x in r["built"]]
        rec["failed"] = [idx[x] for x, e in r["failed"] if e != "DependentModuleBuildFailed"]
        rec["skipped"] = [idx[x] for x, e in r["failed"] if e == "DependentModuleBuildFailed"]
        recs.append(rec)
    path = os.path.join(c.work, "batch.ndjson")
    with open(path, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in recs)
    ok = {x["id"] for x in c.tlc("BuildSched", env={"BATCH": path}, timeout=1500)["lines"]}
    for r in recs:
        c.validated()
        c.part("modules", r["n"])
        c.part("events", len(r["trace"]))
        c.part("plans with failures", 1 if r["bad"] else 0)
        if r["id"] not in ok:
            k, out, idx = src[r["id"]]
            c.violation(f"a parallel build that the dependencies do not allow: deps {r['deps']}, failing {r['bad']}, entries {r['entries']}: "
                        f"events {out['events']} failed {out['failed']} built {out['built']}", {"case": k, "result": out, "record": r})
        else:
            c.sample({k: r[k] for k in ("deps", "bad", "entries", "trace", "skipped")} if r["n"] < 7 else r["n"], 3)


if __name__ == "__main__":
    main("P08", check)
