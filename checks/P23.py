"""P23: lazy iterators against Iter.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from mapcheck import compile_all, feed, split_outs, read

UNARY = [10, 11, 12, 13, 14, 15, 16, 22, 27, 28]
BINARY = [17, 18, 18, 19, 20, 21, 23]


def network(rng, big):
    """Nodes and whether each is finite."""
    nodes, fin = [], [True]
    n = rng.choice([2, 3, 4, 6, 9] + ([14] if big else []))
    while len(nodes) < n:
        i = len(nodes) + 1
        d = {"k": 0, "a": 0, "b": 0, "c": 0, "p": 0, "q": 0, "r": 0, "v": []}
        small = lambda: rng.choice([-9, -3, -1, 0, 1, 1, 2, 3, 4, 5, 8, 13, rng.randrange(-40, 90)])
        lst = [small() for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))]
        if rng.random() < (0.75 if i <= 2 else 0.2):
            k = rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 24, 25, 26, 29])
            d["k"] = k
            if k in (1, 8, 9, 24, 25):
                d["v"] = lst
            elif k == 2:
                d["p"], d["q"], d["r"] = rng.randrange(-6, 7), rng.randrange(-6, 12), rng.choice([1, 1, 2, 3, -1, -2, 0])
            elif k == 3:
                d["p"], d["q"] = rng.choice([0, 1, 2, 5]), small()
            elif k == 7:
                d["p"], d["q"], d["r"] = rng.randrange(-3, 4), rng.randrange(-2, 7), rng.randrange(-9, 30)
            else:
                d["p"] = small()
            f = k != 6
        else:
            k = rng.choice(UNARY + BINARY)
            pick = lambda: rng.choice([i - 1, i - 1, rng.randrange(min(i - 1, 0 if rng.random() < 0.1 else 1), i)])
            d["k"] = k
            d["a"] = pick()
            d["p"], d["r"] = rng.choice([2, 2, 3, 5]), rng.choice([0, 1, 2, 3])
            d["q"] = rng.choice([0, 0, 1, -1])
            fa = fin[d["a"]]
            if k in (11, 12, 14, 16, 17) and not fa:
                k = d["k"] = rng.choice([10, 13, 13, 22])
            if k == 10:
                d["p"], d["q"] = rng.randrange(-9, 30), small()
            if k in (13, 14):
                d["p"] = rng.choice([0, 1, 2, 3, 5])
            if k == 27:
                d["v"] = lst[:4]
            f = fa
            if k == 13:
                f = True
            if k in BINARY:
                d["b"], d["c"] = pick(), pick()
                fb, fc = fin[d["b"]], fin[d["c"]]
                f = (fa or fb) if k in (19, 20) else fa and fb and (fc if k == 23 else True)
        nodes.append(d)
        fin.append(f)
    return nodes, fin


def history(rng, big=False):
    nodes, fin = network(rng, big)
    ops = []
    for _ in range(rng.choice([3, 6, 10])):
        i = rng.choice([len(nodes), len(nodes), rng.randrange(1, len(nodes) + 1)])
        op = rng.choice([1, 1, 1, 1, 3] if not fin[i] or rng.random() < 0.5 else list(range(2, 19)))
        p, q = (rng.choice([0, 1, 2, 4]), 0) if op == 4 else (rng.choice([2, 3, 5]), rng.choice([0, 0, 1, -1]))
        ops.append({"op": op, "i": i, "p": p, "q": q})
    # whatever is left of the finite ones
    ops += [{"op": 15, "i": i, "p": 2, "q": 0} for i in range(len(nodes), 0, -1) if fin[i]]
    ops += [{"op": 1, "i": i, "p": 2, "q": 0} for i in range(1, len(nodes) + 1)]
    return nodes, ops


def encode(nodes, ops):
    xs = [0, len(nodes)]
    for d in nodes:
        xs += [d[k] for k in ("k", "a", "b", "c", "p", "q", "r")] + [len(d["v"]), *d["v"]]
    for o in ops:
        xs += [o["op"], o["i"], o["p"], o["q"]]
    return xs + [0, -1]


def check(c):
    c.build(harness=False)
    c.tlc("IterLaws")
    files = {"ints": read("ints.llrl"), "iter": read("iter.llrl"),
             "main": read("mapmain.llrl.in").replace("@IMPORTS@", '(import "~/iter" _)').replace("@CASES@", "    [0 (run next!)]")}
    exes = compile_all(c, files)
    if not exes:
        return
    c.log("interpreters compiled")
    for rnd in range(c.pick(1, 60)):
        hs = [history(c.rng, j % 7 == 0) for j in range(c.pick(700, 1500))]

        def go(arg):
            n, (nodes, ops) = arg
            cfg = list(exes)[n % len(exes)]
            return n, cfg, feed(exes[cfg], encode(nodes, ops))

        recs, info = [], {}
        for n, cfg, (rc, out, err) in pmap(go, list(enumerate(hs))):
            nodes, ops = hs[n]
            outs = split_outs(out)
            if rc != 0 or len(outs) != len(ops):
                c.violation(f"iterators on {cfg}: the program ends with {rc} after {len(outs)} of {len(ops)} consumers {err[-200:]}", {"config": cfg, "nodes": nodes, "ops": ops})
                continue
            recs.append({"id": n, "nodes": nodes, "ops": ops, "outs": [[int(x) for x in o] for o in outs]})
            info[n] = cfg
        v = c.tlc_batch("IterTrace", recs)
        for rec in recs:
            n = v[rec["id"]]["n"]
            if n < len(rec["ops"]):
                c.violation(f"iterators on {info[rec['id']]}: {rec['ops'][n]} shows {rec['outs'][n]}, the specification {v[rec['id']]['want']} "
                            f"({[tuple(x.values()) for x in rec['nodes']]})", {"config": info[rec["id"]], **rec, "step": n})
            else:
                c.validated()
                c.part("consumers", n)
                for d in rec["nodes"]:
                    c.part("iterators", 1)
                c.sample(f"{info[rec['id']]}: {len(rec['nodes'])} iterators, {n} consumers accepted, e.g. {rec['ops'][0]} -> {rec['outs'][0]}")
        if c.viol:
            break
    c.assumptions += ["pulling an exhausted source is not observed; sources keep answering none once exhausted"]


if __name__ == "__main__":
    main("P23", check)
