"""P21: integers and their digit strings against NumText.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from mapcheck import compile_all, feed, split_outs, read

TYPES = [("I8", True, 1), ("I16", True, 2), ("I32", True, 4), ("I64", True, 8), ("U8", False, 1), ("U16", False, 2), ("U32", False, 4), ("U64", False, 8)]
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
GENID = '''(import "~/ints" _)
(import "std/string" _)
(builtin-op genid {(-> String)} "string.genid")
(export run)
(function (run next!) {(-> (-> I64) unit)}
  (let ([i (ref (next!))])
    (while (< 0 ~i)
      (for (let b) (string/bytes (genid)) (say (string b)))
      (ignore (println! ";"))
      (set! i (- ~i 1)))))
'''


def digits(v, radix):
    s = ""
    m = abs(v)
    while True:
        s = DIGITS[m % radix] + s
        m //= radix
        if not m:
            return ("-" if v < 0 else "") + s


def case(rng, signed, n):
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    radix = rng.choice([2, 3, 7, 8, 10, 10, 10, 16, 16, 35, 36, rng.randint(2, 36)])
    v = rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1 if signed else 2, radix, radix ** rng.randrange(1, 9), rng.randint(lo, hi), rng.randint(0, 300),
                    rng.randint(lo, hi) >> rng.randrange(1, 8 * n)])
    v = max(lo, min(hi, v))
    op = rng.choice([0, 0, 1, 1, 1, 2, 3])
    if op in (2, 3):
        radix = 10
    if op != 1:
        return {"op": op, "radix": radix, "w": list(v.to_bytes(n, "little", signed=signed))}, [op, radix, v - (1 << 64) if v >= 1 << 63 else v]
    k = rng.random()
    if k < 0.3:
        s = digits(v, radix)
    elif k < 0.55:                                       # around the limits
        s = digits(rng.choice([lo, hi]) + rng.choice([-3, -2, -1, 0, 1, 2, 3, radix, -radix]), radix)
    elif k < 0.7:                                        # far beyond them
        s = digits(rng.choice([lo, hi]) * rng.choice([radix, radix + 1, 2, 10, 256, 1 << 64, 1 << 70]) + rng.randrange(-2, 3), radix)
    elif k < 0.8:
        s = "".join(rng.choice(DIGITS) for _ in range(rng.choice([0, 1, 2, 5])))
    else:
        s = digits(v, radix)
        j = rng.randrange(len(s) + 1)
        s = s[:j] + rng.choice(["-", "+", " ", "_", "/", ":", "@", "`", "{", "[", ".", "x", "é", DIGITS[radix - 1], DIGITS[radix % 36], ""]) + s[j:]
    if rng.random() < 0.2:
        s = s.upper()
    if rng.random() < 0.15:
        s = ("-" if s.startswith("-") else "") + "0" * rng.choice([1, 3, 70]) + s.lstrip("-")
    if rng.random() < 0.05:
        s = rng.choice(["", "-", "--1", "-0", "0", "00", "+1", "-+1", " 1", "1 "])
    b = list(s.encode())
    return {"op": 1, "radix": radix, "s": b}, [1, radix, len(b), *b]


def check(c):
    c.build(harness=False)
    c.tlc("NumTextLaws", env={"BATCH": "/dev/null"})
    files = {"ints": read("ints.llrl"), "t8": GENID}
    for i, (t, sg, n) in enumerate(TYPES):
        files[f"t{i}"] = read("numtext.llrl.in").replace("@T@", t).replace("@N@", str(n))
    files["main"] = read("mapmain.llrl.in").replace("@IMPORTS@", "\n".join(f'(import "~/t{i}" [run{i} run])' for i in range(9))) \
        .replace("@CASES@", "\n".join(f"    [{i} (run{i} next!)]" for i in range(9)))
    exes = compile_all(c, files)
    if not exes:
        return
    c.log("interpreters compiled")
    for rnd in range(c.pick(1, 60)):
        jobs = []
        for i, (t, sg, n) in enumerate(TYPES):
            for _ in range(c.pick(4, 10)):
                jobs.append((i, [case(c.rng, sg, n) for _ in range(c.pick(250, 800))]))
        jobs.append((8, [({"op": 9}, [])] * 1300))

        def go(arg):
            j, (i, cs) = arg
            cfg = list(exes)[j % len(exes)]
            ints = [x for _, a in cs for x in [i, *a]] if i < 8 else [8, len(cs)]
            return j, cfg, feed(exes[cfg], ints + [-1])

        recs, info = [], {}
        for j, cfg, (rc, out, err) in pmap(go, list(enumerate(jobs))):
            i, cs = jobs[j]
            t = TYPES[i][0] if i < 8 else "identifiers"
            outs = split_outs(out)
            if rc != 0 or len(outs) != len(cs):
                bad = cs[len(outs)][0] if len(outs) < len(cs) else None
                c.violation(f"{t} on {cfg}: the program ends with {rc} after {len(outs)} of {len(cs)} conversions, at {bad} {err[-200:]}", {"type": t, "config": cfg, "case": bad})
                continue
            recs.append({"id": j, "signed": TYPES[i][1] if i < 8 else False, "n": TYPES[i][2] if i < 8 else 0,
                         "cases": [{**a, "out": [] if o == ["-"] else [int(x) for x in o]} for (a, _), o in zip(cs, outs)]})
            info[j] = (t, cfg)
        v = c.tlc_batch("NumText", recs)
        for rec in recs:
            n, (t, cfg) = v[rec["id"]]["n"], info[rec["id"]]
            if n < len(rec["cases"]):
                k = rec["cases"][n]
                what = f"parsing {bytes(k['s'])!r} in radix {k['radix']} yields {k['out']}" if k["op"] == 1 else \
                    f"identifier {bytes(k['out'])} is not new" if k["op"] == 9 else f"{k['w']} in radix {k['radix']} is displayed as {bytes(k['out'])!r}"
                c.violation(f"{t} on {cfg}: {what}", {"type": t, "config": cfg, "case": k})
            else:
                c.validated()
                c.part(f"{t} conversions", n)
                c.sample(f"{t} on {cfg}: {rec['cases'][0]}")
        # radices outside 2..36 are refused
        for i in range(8):
            for radix in (0, 1, 37, 255):
                rc, out, err = feed(exes[list(exes)[(i + radix) % len(exes)]], [i, 0, radix, 5, -1])
                if rc != -6:
                    c.violation(f"{TYPES[i][0]}: displaying in radix {radix} must be refused, the program ends with {rc} ({out!r})", {"type": TYPES[i][0], "radix": radix})
                c.part("refusals", 1)
        if c.viol:
            break


if __name__ == "__main__":
    main("P21", check)
