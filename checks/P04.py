"""P04: types of functions against Infer.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import infergen as ig


def run(c):
    c.build(llrl0=False)
    c.tlc("InferLaws", consts={"Wide": "TRUE"} if c.thorough else None, timeout=900)
    w = ig.World()
    n = c.pick(int(os.environ.get("N04", 5000)), 20000)
    for k in range(0, n, 3000):
        cases = []
        while len(cases) < min(3000, n - k):
            if c.rng.random() < 0.55:
                cases.append({"id": k + len(cases), "fs": ig.Loose(c.rng, w).program(), "w": w})
                continue
            g = ig.Gen(c.rng, w)
            fs = g.program(c.rng.choice([1, 1, 2, 3]), c.rng.choice([1, 2, 2, 3]))
            if ig.size(fs) > 120:
                continue
            for _ in range(c.rng.choice([0, 0, 1, 1, 1, 2, 3])):
                ig.mutate(c.rng, fs)
            if ig.annotated(fs):
                cases.append({"id": k + len(cases), "fs": fs, "w": w})
        judge(c, cases)


def slim(x):
    if isinstance(x, dict):
        return {k: slim(v) for k, v in x.items() if k not in ("x", "ord")}
    return [slim(v) for v in x] if isinstance(x, list) else x


def judge(c, cases):
    res = c.tlc_batch("InferBatch", [{"id": x["id"], "w": x["w"].json(), "fs": slim(x["fs"])} for x in cases], timeout=900)
    got = c.harness("build", [{"id": x["id"], "mods": {"~": source(x)}, "types": True} for x in cases])
    for x in cases:
        m, g = res[x["id"]]["out"], got[x["id"]]
        c.validated()
        text = "\n".join(map(ig.fstr, x["fs"]))
        rep = {"text": source(x), "model": m, "got": g}
        if g.get("stage") != "module" or len(g["errors"]) > 1:
            c.violation(f"module is not built: {str(g)[:300]}\n{text}", rep)
            continue
        err = g["errors"][0] if g["errors"] else None
        c.part("typable" if m["ok"] else "not typable: " + m["why"], 1)
        if m["ok"] and err:
            c.violation(f"the program has types, but: {err['msg']}\n{text}", rep)
        elif not m["ok"] and not err:
            c.violation(f"the program has no types ({m['why']}), but it is accepted\n{text}", rep)
        elif m["ok"]:
            types = m["types"]
            for f in x["fs"]:
                mine, (ps, t, cs) = types[f["n"]], ig.parse_scheme(g["types"][f["n"]]["scheme"])
                c.part("polymorphic" if mine["ps"] else "monomorphic", 1)
                if mine["s"]:
                    c.part("constrained", 1)
                if ig.canon(mine["t"], mine["s"]) != ig.canon(t, cs):
                    c.violation(f"{f['n']} has type {ig.sstr(mine)}, not {g['types'][f['n']]['scheme']}\n{text}", rep)
                    break
            c.sample(text[:400])
        elif err["err"] not in ("CannotUnifyType", "NoMatchingInstances", "RecursionLimitExceeded", "CannotResolveAmbiguity"):
            c.violation(f"refused for another reason: {err['err']} {err['msg']}\n{text}", rep)
        else:
            c.part(err["err"], 1)


def source(x): return x["w"].text() + "\n" + "\n".join(map(ig.fstr, x["fs"]))


if __name__ == "__main__":
    main("P04", run)
