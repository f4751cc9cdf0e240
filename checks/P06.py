"""P06: what overloaded names resolve to, against Classes.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import classgen as cg

KIND = {"CyclicClasses": "cyclic", "OverlappingInstances": "overlap", "NoMatchingInstances": "missing", "RecursionLimitExceeded": "missing"}


def run(c):
    c.build()
    circular(c)
    n = c.pick(int(os.environ.get("N06", 2000)), 12000)
    for k in range(0, n, 3000):
        progs = []
        while len(progs) < min(3000, n - k):
            try:
                progs.append(cg.Program(c.rng, f"q{k + len(progs)}"))
            except cg.Bad:
                c.part("discarded", 1)
        judge(c, progs)


# an instance whose superclass is only known from a premise that rests on the instance itself
CIRCULAR = """(data (P A) p:)
(class (K0 A) (function (k0 x) {(-> (P A) unit)}))
(class (K1 A) (where (K0 A)) (function (k1 x) {(-> (P A) unit)}))
(class (K2 A) (where (K1 A)) (function (k2 x) {(-> (P A) unit)}))
(instance I0 (forall A) (K1 A) (where (K2 A)) (function (k1 x) (ignore (println! "I0"))))
(instance I1 (K2 F64) (function (k2 x) (ignore (println! "I1"))))
(instance I2 (K0 F64) (function (k0 x) (ignore (println! "I2"))))
(k2 (annotate p: (P F64)))
(k1 (annotate p: (P F64)))
(k0 (annotate p: (P F64)))"""


def circular(c):
    r = run_llrl({"m": CIRCULAR}, "m", "chibi", work=c.work)
    ran = r["stage"] == "run" and r["rc"] == 0 and r["out"] == "I1\nI0\nI2\n"
    if not ran and "No matching instances" not in r["msg"]:
        c.violation(f"neither runs nor is refused: {r['stage']} rc={r['rc']} {r['msg'][-200:]}",
                    {"key": "circular superclass evidence", "text": CIRCULAR})


def judge(c, progs):
    res = c.tlc_batch("ClassesBatch", [{"id": p.id, "w": p.json()} for p in progs], timeout=1200)
    texts = {p.id: p.texts() for p in progs}
    got = c.harness("build", [{"id": p.id, "mods": {"~/" + m if m != p.mod(len(p.mods)) else "~": t for m, t in texts[p.id].items()}} for p in progs])
    good = []
    for p in progs:
        m, g = res[p.id]["out"], got[p.id]
        c.validated()
        show = "\n".join(f";; {k}\n{t}" for k, t in texts[p.id].items() if k != "base")
        rep = {"text": show, "w": p.json(), "model": m, "got": g}
        if g.get("stage") != "module":
            c.violation(f"not built: {str(g)[:300]}\n{show}", rep)
            continue
        errs = [e for e in g["errors"] if e["err"] != "DependentModuleBuildFailed"]
        for e in m["e"]:
            c.part(e, 1)
        if not m["bad"] and not errs:
            good.append(p)
            c.part("accepted", 1)
        elif not errs:
            c.violation(f"accepted, but in {p.mod(m['bad'])}: {m['e']}\n{show}", rep)
        elif not m["bad"]:
            c.violation(f"every constraint follows, but: {errs[0]['msg']}\n{show}", rep)
        elif any(KIND.get(e["err"]) not in m["e"] for e in errs):
            c.violation(f"in {p.mod(m['bad'])}: {m['e']}, but reported: {[(e['err'], e['msg']) for e in errs]}\n{show}", rep)
    # what runs
    groups = [good[i:i + 40] for i in range(0, len(good), 40)]

    def work(job):
        g, (backend, opt) = job
        mods = {}
        for p in g:
            mods.update(texts[p.id])
        mods["e"] = "".join(f'(import "~/{p.mod(len(p.mods))}")\n(putchar 10)\n' for p in g)
        mods["e"] = '(no-implicit-std) (import "builtin" I32 Number Number._) (import "~/base" putchar)\n' + mods["e"]
        return g, backend, opt, run_llrl(mods, "e", backend, opt, work=c.work, timeout=300)
    for g, backend, opt, r in pmap(work, [(g, (b, o)) for k, g in enumerate(groups) for b, o in (("chibi", False), ("llvm", k % 2 == 0))]):
        if r["stage"] != "run" or r["rc"] != 0:
            if len(g) > 1 and not c.enough():
                for p in g:
                    one = work(([p], (backend, opt)))[-1]
                    if one["stage"] != "run" or one["rc"] != 0:
                        show = "\n".join(f";; {k}\n{t}" for k, t in texts[p.id].items() if k != "base")
                        c.violation(f"{backend}: {one['stage']} rc={one['rc']} {one['msg'][-500:]}\n{show}", {"text": show, "w": p.json()})
                        break
                continue
            c.violation(f"{backend}: {r['stage']} rc={r['rc']} {r['msg'][-500:]}", {"programs": [texts[p.id] for p in g]})
            continue
        outs = r["out"].split("@")[1:]
        want = {}
        order = []
        for p in g:
            m = res[p.id]["out"]
            for k in range(len(p.mods)):
                order.append((p, k))
        if len(outs) != len(order):
            c.violation(f"{backend}: {len(outs)} modules ran, not {len(order)}", {"programs": [texts[p.id] for p in g], "out": r["out"]})
            continue
        # the modules of a program run before the next one is imported
        for (p, k), o in zip(order, outs):
            m = res[p.id]["out"]
            if not m["sure"]:
                c.part("either", 1)
                continue
            c.part("calls run", len(m["out"][k]))
            c.validated()
            if o.split() != list(m["out"][k]):
                show = "\n".join(f";; {k}\n{t}" for k, t in texts[p.id].items() if k != "base")
                c.violation(f"{backend}: {p.mod(k + 1)} runs {' '.join(o.split())[:300]}, not {' '.join(m['out'][k])[:300]}\n{show}",
                            {"text": show, "model": m, "got": o})
                break
    for p in good[:1]:
        c.sample("\n".join(texts[p.id].values())[:1200])


if __name__ == "__main__":
    main("P06", run)
