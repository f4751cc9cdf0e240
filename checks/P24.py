"""P24: paths, files and directories against Files.tla.

The programs remove files: they run as an unprivileged user inside a scratch directory of that user."""
import os, resource, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from mapcheck import compile_all, split_outs, read

NOBODY = 65534
NAMES = ["a", "b", "c", "d.x", "é", ".h", "a b", "n" * 90]


def b(s):
    return list(s.encode())


def fspath(rng, deep=True):
    ns = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 2, 3]) if deep else 1)]
    out = ns[0]
    for n in ns[1:]:
        out += rng.choice(["/"] * 8 + ["//", "/./", f"/../{rng.choice(NAMES)}/"]) + n
    if rng.random() < 0.05:
        out = "./" + out
    return out


def anypath(rng):
    p = "".join(rng.choice(["/", "/", ".", ".", "..", "a", "b", "foo", ".x", "a.b", "é", "a.", "...", "//"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9])))
    return p


def content(rng):
    return rng.choice([[], b("hello"), b("héllo\n"), [255], [0xC3], [0, 1, 2], [rng.randrange(256) for _ in range(rng.randrange(30))], [rng.randrange(128) for _ in range(16)]])


def history(rng, n, kind):
    ops, known = [], [fspath(rng) for _ in range(4)] + [rng.choice(NAMES)]
    for _ in range(n):
        p = rng.choice(known) if rng.random() < 0.7 else fspath(rng)
        o = {"op": 0, "h": rng.randrange(3), "n": 0, "p": b(p), "q": [], "w": [0] * 8}
        if kind == "paths":
            o["op"] = rng.randrange(40, 52)
            o["p"] = b(anypath(rng))
            o["q"] = b(anypath(rng)) if o["op"] > 48 else b(rng.choice(["x", "tar.gz", "", "é"]))
        else:
            op = o["op"] = rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 9, 9, 10, 11, 11, 12, 13, 13, 14, 15, 15, 16, 16, 17, 18, 20, 20, 21, 21, 21, 22, 23, 24, 25, 25])
            if op == 12 and rng.random() < 0.5:
                o["p"] = b(p.split("/")[0])
            if op in (1, 15):
                o["q"] = b(rng.choice(["r", "r", "w", "w", "w", "a", "a", "q"]))
                known.append(p)
            if op == 9:
                known += [p, p + "/" + rng.choice(NAMES)]
                if rng.random() < 0.1:
                    o["p"] = b(p + "/")
            if op == 2:
                o["n"] = rng.choice([0, 1, 2, 5, 7, 40, 4096])
            if op in (3, 17, 18):
                o["p"] = content(rng)
            if op == 17:
                o["p"], o["n"] = b(rng.choice(["x", "", "é"])), rng.choice([0, 7, 42, 999])
            if op == 18:
                o["p"], o["n"] = o["p"][:5], rng.choice([0, 3, 20] if rng.random() < 0.9 else [800, 1030])
            if op == 15:
                v = rng.choice([0, 1, -1, 255, -128, 128, 65535, 1 << 40, -(1 << 63), (1 << 63) - 1, rng.randrange(-1 << 63, 1 << 63), 0x4142434445464748])
                o["n"], o["w"] = v, list(v.to_bytes(8, "little", signed=True))
            if op in range(20, 25):
                o["h"] %= 2
            if rng.random() < 0.02 and op not in (3, 17, 18):
                o["p"] = rng.choice([[], b(p + "/x")])
        ops.append(o)
    return ops


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def can_contain():
    try:
        return subprocess.run(["true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (OSError, subprocess.SubprocessError):
        return False


CONTAINED = can_contain()                                # otherwise nothing is removed


def as_bytes(v, k, signed):
    try:
        return v.to_bytes(k, "little", signed=signed)
    except OverflowError:                                # not a number of that type
        return [-1] * k


def feed_nobody(exe, ops, cwd):
    xs = [0]
    for o in ops:
        xs += [o["op"], o["h"], o["n"], len(o["p"]), *o["p"], len(o["q"]), *o["q"]]
    xs += [0, 0, 0, 0, 0, -1]
    try:
        r = subprocess.run([exe], input="".join(f"{x}\n" for x in xs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=cwd,
                           **(dict(user=NOBODY, group=NOBODY, extra_groups=[]) if CONTAINED else {}), preexec_fn=limit, env={"PATH": "/usr/bin:/bin", "TMPDIR": cwd})
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), ""


# The directory every history starts in: a tree with links out of it. Contents are numbered.
START = [("k", "d"), ("k/l", "l"), ("k/m", "d"), ("k/m/f", "f"), ("out", "d"), ("out/f", "f"), ("out/g", "d"), ("out/g/f", "f")]


def check(c):
    c.build(harness=False)
    c.tlc("FilesLaws")
    files = {"ints": read("ints.llrl"), "io": read("io.llrl"),
             "main": read("mapmain.llrl.in").replace("@IMPORTS@", '(import "~/io" _)').replace("@CASES@", "    [0 (run next!)]")}
    exes = compile_all(c, files)
    if not exes:
        return
    c.log("interpreters compiled")
    os.chmod(c.work, 0o755)
    for cfg in exes:
        os.chmod(os.path.dirname(exes[cfg]), 0o755)
    for rnd in range(c.pick(1, 60)):
        hs = []
        for j in range(c.pick(500, 1000)):
            kind = "paths" if j % 5 == 0 else "files"
            hs.append((kind, history(c.rng, c.rng.choice([20, 60, 120]), kind)))
        for p in ("k", "k/l", "out", "k/m", "out/g/f"):
            hs.append(("files", [{"op": o, "h": 0, "n": 0, "p": b(q), "q": [], "w": [0] * 8} for o, q in ((12, p), (25, "k"), (25, "out"), (25, "out/g"), (13, "out/f"), (13, "out/g/f"))]))

        def record(n, ops, outs, cwd, blind):
            tree, data = [], []
            for p, t in START:
                if t == "f":
                    data.append(b(p))
                tree.append({"at": [b(x) for x in p.split("/")], "t": t, "i": len(data)})
            return {"id": n, "ops": [{**o, "n": o["n"] if abs(o["n"]) < 10000 else 0} for o in ops], "outs": outs, "tree": tree, "data": data, "cwd": b(cwd), "blind": blind}

        if not CONTAINED:
            hs = [(k, [o for o in ops if o["op"] not in (10, 11, 12)]) for k, ops in hs]
        blind = c.tlc_batch("FilesTrace", [record(n, ops, [], "/", True) for n, (k, ops) in enumerate(hs)])

        def go(arg):
            n, (kind, ops) = arg
            skip = set(blind[n]["skips"])
            ops = [o for j, o in enumerate(ops) if j not in skip]
            cfg = list(exes)[n % len(exes)]
            cwd = os.path.realpath(tempfile.mkdtemp(prefix="io", dir=c.work))
            for p, t in START:
                q = os.path.join(cwd, p)
                if t == "d":
                    os.mkdir(q)
                elif t == "l":
                    os.symlink("../out", q)
                else:
                    open(q, "wb").write(p.encode())
                if CONTAINED:
                    os.lchown(q, NOBODY, NOBODY)
            if CONTAINED:
                os.chown(cwd, NOBODY, NOBODY)
            r = feed_nobody(exes[cfg], ops, cwd)
            shutil.rmtree(cwd)
            return n, cfg, ops, cwd, r

        recs, info = [], {}
        for n, cfg, ops, cwd, (rc, out, err) in pmap(go, list(enumerate(hs))):
            outs = [[int(x) for x in o] for o in split_outs(out)][:len(ops)]   # the end answers too
            if rc != 0 or len(outs) != len(ops):
                at = ops[len(outs)] if len(outs) < len(ops) else None
                c.violation(f"files on {cfg}: the program ends with {rc} after {len(outs)} of {len(ops)} operations, at {at} {err[-200:]}", {"config": cfg, "ops": ops})
                continue
            for o, x in zip(ops, outs):
                if o["op"] == 16 and x[0] == -9100:                      # the numbers as bytes again
                    x[1:5] = [y for v, k, s in zip(x[1:5], (1, 2, 4, 8), (False, True, False, True)) for y in as_bytes(v, k, s)]
            recs.append(record(n, ops, outs, cwd, False))
            info[n] = cfg
        v = c.tlc_batch("FilesTrace", recs)
        for rec in recs:
            n = v[rec["id"]]["n"]
            if n < len(rec["ops"]):
                o = rec["ops"][n]
                show = [(x["op"], x["h"], bytes(x["p"]), bytes(x["q"])) for x in rec["ops"][max(0, n - 5):n]]
                c.violation(f"files on {info[rec['id']]}: operation {o['op']} {o['h']} {o['n']} {bytes(o['p'])!r} {bytes(o['q'])!r} answers {rec['outs'][n][:60]}, "
                            f"which the specification forbids (after {show})", {"config": info[rec["id"]], "ops": rec["ops"][:n + 1], "out": rec["outs"][n]})
            else:
                c.validated()
                c.part("operations", n)
                c.sample(f"{info[rec['id']]}: {n} operations accepted, e.g. {rec['ops'][0]['op']} {bytes(rec['ops'][0]['p'])!r} -> {rec['outs'][0][:20]}")
        if c.viol:
            break
    c.assumptions += ["the kernel's file system and the C library's streams behave as POSIX says; what another open file sees before a flush is not specified"]


if __name__ == "__main__":
    main("P24", check)
