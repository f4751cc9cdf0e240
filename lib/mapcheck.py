"""Histories of the standard maps and sets: generation, execution on the compiled interpreters, trace validation."""
import os
import vlib
from vlib import *

LL = os.path.join(VERIF, "llrl")
CONFIGS = [("chibi", False), ("chibi", True), ("llvm", False), ("llvm", True)]
ORD = """          [18 (opt-elem (@M@/get-min? m))]
          [19 (opt-elem (@M@/get-max? m))]
          [20 (opt-elem (@M@/remove-min! m))]
          [21 (opt-elem (@M@/remove-max! m))]
          [22 (let ([x (xx-hasher/new)]) (bool (eq? (hash x m) (hash x (get maps[g])))))]
          [23 (ord (compare m (get maps[g])))]"""
ORDSET = ORD.replace("opt-elem", "opt").replace("get-min?", "min?").replace("get-max?", "max?")
HASH = """          [24 (set! maps[h] (@M@/with-capacity (conv a)))]
          [25 (@M@/reserve-capacity! (conv a) m)]"""
PHASH = """          [6 (say (string (@M@/length m)))]"""
PORD = """          [18 (opt-elem (@M@/get-min? m))]
          [19 (opt-elem (@M@/get-max? m))]
          [20 (vector/push! (@M@/remove-min m) vs)]
          [21 (vector/push! (@M@/remove-max m) vs)]
          [22 (let ([x (xx-hasher/new)]) (bool (eq? (hash x m) (hash x g))))]
          [23 (ord (compare m g))]
          [30 (vector/push! (@M@/union m g) vs)]
          [31 (vector/push! (@M@/union* (lambda (_ x y) (+ (* 10 (% x 100)) y)) m g) vs)]
          [32 (vector/push! (@M@/intersection m g) vs)]
          [33 (vector/push! (@M@/intersection* (lambda (_ x y) (+ (* 10 (% x 100)) y)) m g) vs)]
          [34 (vector/push! (@M@/difference m g) vs)]
          [35 (vector/push! (@M@/difference* (lambda (_ x y) (if (< x y) (some (- y x)) none)) m g) vs)]"""
MUT = [("hash-map", "HashMap", "mutmap", HASH), ("ord-map", "OrdMap", "mutmap", ORD), ("hash-set", "HashSet", "mutset", ""), ("ord-set", "OrdSet", "mutset", ORDSET)]
PERS = [("hash-map", "HashMap", "persmap", PHASH), ("ord-map", "OrdMap", "persmap", PORD)]


def read(f):
    return open(os.path.join(LL, f)).read()


def sources(persistent):
    """The interpreter program; variant i of the dispatch is (kind, key type)."""
    files, kinds, imports, cases = {"ints": read("ints.llrl"), "mapkeys": read("mapkeys.llrl")}, [], [], []
    for m, c, tmpl, ops in (PERS if persistent else MUT):
        for k, mk in (("I64", "x"), ("CKey", "(ck: x)")):
            i = len(kinds)
            src = read(tmpl + ".llrl.in").replace("@OPS@", ops)
            for a, b in (("@M@", m), ("@C@", c), ("@K@", k), ("@MK@", mk)):
                src = src.replace(a, b)
            files[f"v{i}"] = src
            imports.append(f'(import "~/v{i}" [run{i} run])')
            cases.append(f"    [{i} (run{i} next!)]")
            kinds.append((m, k))
    main = read("mapmain.llrl.in").replace("@IMPORTS@", "\n".join(imports)).replace("@CASES@", "\n".join(cases))
    files["main"] = main
    return files, kinds


def compile_all(c, files, main="main", configs=CONFIGS):
    exes = {}

    def one(cfg):
        b, o = cfg
        d = os.path.join(c.work, f"{b}{int(o)}")
        os.makedirs(d, exist_ok=True)
        for n, s in files.items():
            open(os.path.join(d, n + ".llrl"), "w").write(s)
        exe = os.path.join(d, "a.out")
        env = build_env()
        env["TMPDIR"] = d
        r = subprocess.run([vlib.COMPILER or LLRL0, "-b", b, "-o", exe] + (["-O"] if o else []) + [main], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        return cfg, exe if r.returncode == 0 and os.path.exists(exe) else None, r.stdout

    for cfg, exe, msg in pmap(one, configs):
        if exe is None:
            c.violation(f"the interpreter program is not compiled on {cfg}: {msg[-1500:]}", {"config": cfg, "msg": msg[-3000:]})
        else:
            exes[cfg] = exe
    return exes


def feed(exe, ints, timeout=60, env=None):
    data = "".join(f"{x}\n" for x in ints).encode()
    try:
        r = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env={**os.environ, **(env or {})})
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), ""


def split_outs(text):
    return [o.split() for o in text.split(";\n")][:-1]


# ------------------------------------------------------------- generation
def key_families(rng):
    return {"dense": list(range(28)), "sparse": [rng.randrange(-10**8, 10**8) for _ in range(56)], "few": list(range(7)),
            "neg": list(range(-20, 30)), "wide": list(range(0, 400)), "big": [x * 65536 for x in range(114)]}


def mut_history(rng, fams, kind, n):
    m, k = kind
    isset, isord = "set" in m, "ord" in m
    fam = rng.choice(sorted(fams))
    keys = list(fams[fam])
    if rng.random() < 0.5:
        keys = rng.sample(keys, min(len(keys), rng.choice([3, 6, 12, 20])))
    ops = []
    q = [4, 5, 8] + ([] if isset else [3, 7, 9])
    phase, left = "grow", 0
    order = None
    if m == "hash-map" and rng.random() < 0.3:
        ops.append([24, 0, rng.choice([0, 1, 2, 5, 16, 33]), 0])
    while len(ops) < n:
        if left == 0:
            phase = rng.choice(["grow", "grow", "shrink", "mix", "asc", "desc", "drain", "copy"])
            left = rng.choice([5, 15, 40, 100])
            order = sorted(keys)
            if phase == "desc":
                order.reverse()
        left -= 1
        h = 0 if rng.random() < 0.7 else rng.randrange(3)
        key, v = rng.choice(keys), rng.randrange(100)
        ins = 1 if isset or rng.random() < 0.9 else 16
        r = rng.random()
        if phase == "grow" and r < 0.8:
            ops.append([ins, h, key, v])
        elif phase == "shrink" and r < 0.75:
            ops.append([2, h, key, 0])
        elif phase in ("asc", "desc") and r < 0.9 and order:
            ops.append([ins, h, order.pop(0), v])
        elif phase == "drain" and r < 0.85:
            ops.append([rng.choice([20, 21]) if isord and rng.random() < 0.7 else 2, h, order.pop() if order else key, 0])
        elif phase == "copy" and r < 0.5:
            ops.append([rng.choice([10, 11, 12, 13]), h, rng.randrange(3), 0])
        elif r < 0.35:
            ops.append([rng.choice([ins, 2]), h, key, v])
        elif r < 0.38:
            ops.append([14, h, rng.randrange(3), 0])
        elif r < 0.40:
            ops.append([rng.choice([10, 11, 12, 13]), h, rng.randrange(3), 0])
        elif r < 0.41:
            ops.append([rng.choice([6, 17]), h, 0, 0])
        elif r < 0.44 and not isset:
            ops.append([15, h, key, v])
        elif r < 0.52 and isord:
            ops.append([rng.choice([18, 19, 20, 21, 22, 23]), h, rng.randrange(3), 0])
        elif r < 0.45 and m == "hash-map":
            ops.append([25, h, rng.choice([0, 1, 16, 17, 64]), 0])
        else:
            ops.append([rng.choice(q), h, key, 0])
    # look at everything at the end
    for h in range(3):
        ops += [[x, h, 0, 0] for x in q if x not in (3, 4)]
        for key in sorted(set(keys))[:40]:
            ops.append([4 if isset else 3, h, key, 0])
    return ops


def pers_history(rng, fams, kind, n):
    m, k = kind
    isord = "ord" in m
    keys = list(fams[rng.choice(sorted(fams))])
    if rng.random() < 0.6:
        keys = rng.sample(keys, min(len(keys), rng.choice([3, 6, 12, 20])))
    ops, nv = [], 1
    q = [3, 4, 5, 7, 8, 9] + ([18, 19] if isord else [6])
    phase, left, order = "grow", 0, []
    small = rng.random() < 0.4
    while len(ops) < n:
        if left == 0:
            phase = rng.choice(["grow", "shrink", "asc", "desc", "drain", "mix"])
            left = rng.choice([5, 15, 40])
            order = sorted(keys)
            if phase == "desc":
                order.reverse()
        left -= 1
        r = rng.random()
        h = nv - 1 if r < 0.8 else rng.randrange(max(0, nv - 12), nv) if r < 0.95 else rng.randrange(nv)
        key, v = rng.choice(keys), rng.randrange(100)
        r = rng.random()
        ins = rng.choice([1, 1, 1, 16])
        new = True
        if phase == "grow" and r < 0.7:
            ops.append([ins, h, key, v])
        elif phase == "shrink" and r < 0.7:
            ops.append([2, h, key, 0])
        elif phase in ("asc", "desc") and r < 0.85 and order:
            ops.append([ins, h, order.pop(0), v])
        elif phase == "drain" and r < 0.8:
            ops.append([rng.choice([20, 21]), h, 0, 0] if isord and rng.random() < 0.6 else [2, h, order.pop(0) if order else key, 0])
        elif r < 0.3:
            ops.append([rng.choice([1, 2]), h, key, v])
        elif r < 0.34:
            ops.append([rng.choice([10, 11, 13, 17]), h, 0, 0])
        elif r < 0.44 and isord:
            ops.append([rng.randrange(30, 36), h, rng.randrange(max(0, nv - 10), nv), 0])
        else:
            new = False
            o = rng.choice(q + [14] + ([22, 23] if isord else []))
            ops.append([o, h, rng.randrange(nv) if o in (14, 22, 23) else 0 if o not in (3, 4) else key, 0])
        nv += new
    for h in sorted({0, nv - 1} | {rng.randrange(nv) for _ in range(15)}):
        ops += [[x, h, 0, 0] for x in q if x not in (3, 4)]
        for key in sorted(set(keys))[:12]:
            ops.append([3, h, key, 0])
    return ops


def run(c, persistent, counts=None, configs=CONFIGS):
    c.build(harness=False)
    if not persistent and not counts:
        c.tlc("MutMapMC", consts={"MaxCells": c.pick(2, 4)})
    files, kinds = sources(persistent)
    exes = compile_all(c, files, configs=configs)
    if not exes:
        return
    c.log("interpreters compiled")
    fams = key_families(c.rng)
    so = os.path.join(c.work, "seed.so")
    sh(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(LL, "seed.c")])
    rounds = 1 if counts else c.pick(1, 40)
    gen = pers_history if persistent else mut_history
    spec = "PersMap" if persistent else "MutMapTrace"
    for rnd in range(rounds):
        hist = []
        for i, kind in enumerate(kinds):
            for j in range(counts or 60):
                hist.append((i, gen(c.rng, fams, kind, c.rng.choice([20, 60, 150, 300]))))
        # distribute over the configurations
        recs = []

        def go(arg):
            n, (i, ops) = arg
            cfg = list(exes)[n % len(exes)]
            ints = [i] + [x for o in ops for x in o] + [0, 0, 0, 0, -1]
            seed = str(c.seed * 100003 + rnd * 1009 + n)
            rc, out, err = feed(exes[cfg], ints, env={"LD_PRELOAD": so, "VERIF_HASH_SEED": seed})
            return n, cfg, i, ops, rc, split_outs(out), err, seed

        for n, cfg, i, ops, rc, outs, err, seed in pmap(go, list(enumerate(hist))):
            case = {"kind": kinds[i], "config": cfg, "hash seed": seed, "ops": ops}
            if rc != 0:
                c.violation(f"{kinds[i]} on {cfg}: the history of {len(ops)} operations ends with {rc}: {err[-200:]}", case)
                continue
            outs = outs[:len(ops)]
            if len(outs) != len(ops):
                c.violation(f"{kinds[i]} on {cfg}: {len(outs)} answers to {len(ops)} operations", case)
                continue
            recs.append({"id": n, "kind": "ord" if "ord" in kinds[i][0] else "hash", "desc": kinds[i][1] == "CKey",
                         "set": "set" in kinds[i][0], "ops": ops, "outs": outs, "_case": case})
            c.part(f"{kinds[i][0]} {kinds[i][1]} operations", len(ops))
        v = c.tlc_batch(spec, [{k: x for k, x in r.items() if k != "_case"} for r in recs])
        for r in recs:
            n = v[r["id"]]["n"]
            if n < len(r["ops"]):
                c.violation(f"{r['_case']['kind']} on {r['_case']['config']}: operation {n} {r['ops'][n]} answers {' '.join(r['outs'][n])[:200]}, "
                            f"which the abstract map forbids (after {r['ops'][max(0, n-5):n]})", {**r["_case"], "step": n, "out": r["outs"][n]})
            else:
                c.validated()
                c.sample(f"{r['_case']['kind']} on {r['_case']['config']}: {len(r['ops'])} operations accepted, e.g. {r['ops'][:3]}")
        if c.viol:
            break
    c.assumptions += ["the enumeration order of the hash collections is unspecified", "keys: I64 and a type with a colliding hash and a descending order"]
