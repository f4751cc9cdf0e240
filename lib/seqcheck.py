"""Histories of arrays, vectors, strings and texts."""
from mapcheck import *


def seq_sources():
    files = {"ints": read("ints.llrl"), "elems": read("elems.llrl"), "v3": read("strs.llrl")}
    imports, cases = [], []
    for i, e in enumerate(["I64", "U8", "E3"]):
        files[f"v{i}"] = read("seq.llrl.in").replace("@E@", e)
    for i in range(4):
        imports.append(f'(import "~/v{i}" [run{i} run])')
        cases.append(f"    [{i} (run{i} next!)]")
    files["main"] = read("mapmain.llrl.in").replace("@IMPORTS@", "\n".join(imports)).replace("@CASES@", "\n".join(cases))
    return files


ALPHA = [0, 97, 98, 99, 32, 10, 13, 9, 34, 92, 233, 0x3B1, 0x7FF, 0x800, 0x3042, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 127, 128, 0xD7FF, 0xE000]


def seq_history(rng, n, refuse, elem):
    """Sizes are tracked only roughly; the specification knows which operations are refused."""
    ops = []
    top = 200 if elem == 1 else 10**6
    A = [1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 3, 4, 5]
    V = list(range(40, 77))
    focus = rng.choice(["arr", "vec", "vec", "both"])
    size = rng.choice([2, 4, 9, 20])
    while len(ops) < n:
        pool = A if focus == "arr" else V if focus == "vec" else A + V
        op = rng.choice(pool)
        if focus == "vec" and rng.random() < 0.35:
            op = 44
        if op in (1, 40):
            a = rng.randrange(size + 1)
        elif op in (17, 19, 26, 27, 51, 62, 63, 70):
            a = rng.randrange(3)
        elif op in (55, 56, 72):
            a = rng.choice([0, 1, 2, 3, 5, 8, 17, 40])
        elif rng.random() < 0.03:
            a = -1
        else:
            a = rng.randrange(size)
        b = rng.randrange(min(top, 5 if rng.random() < 0.5 else top))
        if op in (6, 20, 64):
            b = rng.randrange(size + 1)
        if op in (55, 56):
            b = rng.randrange(2)
        ops.append([op, 0 if rng.random() < 0.6 else rng.randrange(3), a, b, rng.choice([0, 0, 1, 2])])
    return ops + [[o, h, 0, 0, 0] for h in range(3) for o in (23, 25, 59, 61)]


def str_history(rng, n, elem):
    ops = []
    small = rng.random() < 0.5
    alpha = (rng.sample(ALPHA, 3) if rng.random() < 0.6 else [0, 97, 98]) if small else ALPHA
    for h in range(3):                                   # some strings to start with
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            ops.append([140, h, rng.choice(alpha), 0, 0])
        ops.append([145, h, 0, 0, h])
    def kin():
        """Two texts and strings that agree on a prefix, and what can be asked of both."""
        h, k = rng.sample(range(3), 2)
        al = alpha if rng.random() < 0.5 else [0, 97, rng.choice(ALPHA)]
        out = [[155, 0, 0, 0, h]] + [[140, h, rng.choice(al), 0, 0] for _ in range(rng.choice([0, 1, 2, 3, 9]))] + [[147, h, 0, 0, k]]
        for x in (h, k):
            out += [[140, x, rng.choice(al), 0, 0] for _ in range(rng.choice([0, 1, 1, 2, 3]))] + [[145, x, 0, 0, x]]
        for o in rng.sample([130, 131, 150, 151, 119, 120, 121, 122, 126], 5) + [131]:
            out += [[o, h, k, 0, 0], [o, k, h, 0, 0]]
        return out
    S = [o for o in range(110, 138)]
    T = list(range(140, 157)) + [160, 161, 162, 163]
    while len(ops) < n:
        if rng.random() < 0.04:
            ops += kin()
        op = rng.choice(S + T + [140] * 6 + [141, 142, 145, 126, 122, 123, 127, 119, 120])
        h, c, b = rng.randrange(3), rng.choice([0, 1, 2]), rng.randrange(3)
        if op in (140, 161, 163, 160):
            a = rng.choice(alpha if op == 140 or rng.random() < 0.5 else ALPHA[:-1] + [-1, 0xD800, 0xDFFF, 0x110000, 111411, 0xDC00])
            if op == 160 and 111411 < a < 1114112:
                a = 111411                              # see KNOWN below
        elif op == 162:
            a, c = rng.choice(ALPHA), rng.choice(ALPHA)
        elif op == 133:
            b = rng.choice([1, 2, 3, 4])
            pool = [rng.choice([0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0x9F, 0xA0, 0x8F, 0x90]) for _ in range(b)]
            if rng.random() < 0.6:
                pool = [pool[0]] + [rng.choice([0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF]) for _ in range(b - 1)]
            pool[-1] %= 128 if b == 4 else 256           # the specification's integers have 31 bits
            a = int.from_bytes(bytes(pool), "little")
        elif op in (114, 115, 116, 117, 118, 132, 142):
            a = rng.choice([0, 0, 1, 2, 3, 4, 6, rng.randrange(25), -1])
            b = rng.choice([0, 1, 2, 3, 4, 6, 8, rng.randrange(25)])
        elif op == 154:
            a = rng.choice([0, 7, -12, 12345])
        else:
            a = rng.randrange(3)
        ops.append([op, h, a, b, c])
        if rng.random() < 0.1:
            ops.append([138, 0, 0, 0, rng.randrange(3)])
    return ops + [[o, h, 0, 0, 0] for h in range(3) for o in (110, 113, 149, 148, 111)]


def run_seq(c, counts=None, configs=CONFIGS):
    c.build(harness=False)
    files = seq_sources()
    exes = compile_all(c, files, configs=configs)
    if not exes:
        return
    c.log("interpreters compiled")
    for rnd in range(c.pick(1, 40) if not counts else 1):
        hist = []
        for kind in range(4):
            for j in range(counts or c.pick(70 if kind < 3 else 260, 200)):
                n = c.rng.choice([12, 40, 90])
                hist.append((kind, seq_history(c.rng, n, False, kind) if kind < 3 else str_history(c.rng, n, kind)))
        # KNOWN: these are scalar values; the existing tests fix that the library takes them for none
        for a in () if counts else (111412, 120000, 0x1F600, 0x10FFFF):
            hist.append((3, [[160, 0, a, 0, 0]]))
        # the specification says which operations are refused: the history goes on without them, and one that ends
        # with such an operation must abort there
        first = c.tlc_batch("SeqTrace", [{"id": n, "ops": ops, "outs": [], "blind": True} for n, (k, ops) in enumerate(hist)])
        runs = []
        for n, (kind, ops) in enumerate(hist):
            refs = first[n]["refs"]
            skip = set(refs) | set(first[n]["skips"])
            runs.append((kind, [o for j, o in enumerate(ops) if j not in skip], False))
            for at in c.rng.sample(refs, min(len(refs), c.pick(2, 6))):
                runs.append((kind, [o for j, o in enumerate(ops[:at]) if j not in skip] + [ops[at]], True))

        def go(arg):
            n, (kind, ops, refused) = arg
            cfg = list(exes)[n % len(exes)]
            rc, out, err = feed(exes[cfg], [kind] + [x for o in ops for x in o] + [0, 0, 0, 0, 0, -1])
            return n, cfg, kind, ops, refused, rc, split_outs(out), err

        recs = []
        for n, cfg, kind, ops, refused, rc, outs, err in pmap(go, list(enumerate(runs))):
            name = ["I64", "U8", "struct", "string"][kind]
            case = {"kind": name, "config": cfg, "ops": ops}
            if refused:
                if rc != -6:
                    c.violation(f"{name} on {cfg}: {ops[-1]} is out of range and must be refused, the program ends with {rc} (after {ops[-6:-1]})", case)
                c.part("refusals", 1)
                continue
            if rc != 0:
                c.violation(f"{name} on {cfg}: the history of {len(ops)} operations ends with {rc}: {err[-200:]} ({ops})", case)
                continue
            outs = outs[:len(ops)]
            if len(outs) != len(ops):
                c.violation(f"{name} on {cfg}: {len(outs)} answers to {len(ops)} operations", case)
                continue
            recs.append({"id": n, "ops": ops, "outs": outs, "blind": False, "_case": case})
            c.part(f"{name} operations", len(ops))
        v = c.tlc_batch("SeqTrace", [{k: x for k, x in r.items() if k != "_case"} for r in recs])
        for r in recs:
            n = v[r["id"]]["n"]
            if n < len(r["ops"]):
                if r["ops"][n][0] == 160 and 111411 < r["ops"][n][2] < 1114112 and r["outs"][n] == ["-"]:
                    r["_case"]["key"] = "char/from-unicode-scalar 111412..1114111"
                c.violation(f"{r['_case']['kind']} on {r['_case']['config']}: operation {n} {r['ops'][n]} answers {' '.join(r['outs'][n])[:200]}, "
                            f"which the abstract sequences forbid (after {r['ops'][max(0, n-6):n]})", {**r["_case"], "step": n, "out": r["outs"][n]})
            else:
                c.validated()
                c.sample(f"{r['_case']['kind']} on {r['_case']['config']}: {len(r['ops'])} operations accepted, e.g. {r['ops'][:3]}")
        if c.viol:
            break
    c.assumptions += ["an abort (SIGABRT) counts as the refusal of an out-of-range access", "array/concat may or may not share storage with an operand"]
