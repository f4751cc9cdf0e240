"""P25: kinds of declarations against Kinds.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import kindgen as kg


def run(c):
    c.build(llrl0=False)
    c.tlc("KindsLaws", timeout=900)
    n = c.pick(int(os.environ.get("N25", 6000)), 40000)
    for k in range(0, n, 3000):
        cases = []
        while len(cases) < min(3000, n - k):
            ms = kg.Gen(c.rng).ms
            for _ in range(c.rng.choice([0, 0, 0, 0, 1, 1, 2])):
                kg.mutate(c.rng, ms)
            if len(str(ms)) < 9000:
                cases.append({"id": k + len(cases), "ms": ms})
        judge(c, cases)


KIND_ERRORS = ("CannotUnifyKind", "UnsupportedKind")


def judge(c, cases):
    res = c.tlc_batch("KindsBatch", [{"id": x["id"], "ms": kg.spec(x["ms"])} for x in cases], timeout=900)
    got = c.harness("build", [{"id": x["id"], "mods": kg.modules(x["ms"]), "kinds": True} for x in cases])
    for x in cases:
        m, g = res[x["id"]]["out"], got[x["id"]]
        c.validated()
        mods = kg.modules(x["ms"])
        text = "\n".join(mods.values())
        rep = {"mods": mods, "model": m, "got": g}
        if g.get("stage") != "module":
            c.violation(f"modules are not built: {str(g)[:300]}\n{text}", rep)
            continue
        errs = [e for e in g["errors"] if e["err"] in KIND_ERRORS]
        other = [e for e in g["errors"] if e["err"] not in KIND_ERRORS]
        c.part("kinds" if m["ok"] else "no kinds: " + m["why"], 1)
        if m["ok"] and errs:
            c.violation(f"the declarations have kinds, but: {errs[0]['msg']}\n{text}", rep)
        elif not m["ok"] and not errs and any(e["path"] == "~/first" for e in other):
            c.part("the other module is not reached", 1)
        elif not m["ok"] and not errs:
            c.violation(f"the declarations have no kinds ({m['why']}), but no such error is reported ({str(other)[:200]})\n{text}", rep)
        elif m["ok"]:
            if other:
                c.part("other " + other[0]["err"], 1)
            for n, k in sorted(g["kinds"].items()):
                if n in m["env"] and kg.kshow(m["env"][n]) != k:
                    c.violation(f"{n} has kind {kg.kshow(m['env'][n])}, not {k}\n{text}", rep)
                    break
                c.part("kinds compared", 1)
            c.sample(text[:300])


if __name__ == "__main__":
    main("P25", run)
