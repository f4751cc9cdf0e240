"""P03: primitive operations at every width against Word.tla / WordMachine.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fractions import Fraction
from vlib import *

TYPES = {f"{'I' if s else 'U'}{8*n}": (s, n) for s in (True, False) for n in (1, 2, 4, 8)}
NAME = {v: k for k, v in TYPES.items()}
BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "and": "bw&", "or": "bw|", "xor": "bw^",
       "shl": "bw<<", "shr": "bw>>", "min": "min", "max": "max"}
CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "eq?", "ne": "ne?"}
UN = {"not": "bw!", "negate": "negate", "abs": "abs", "succ": "succ", "pred": "pred", "popcount": "popcount"}
CONFIGS = [("chibi", False), ("chibi", True), ("llvm", False), ("llvm", True)]
PRE = """(import "std/system" _)
(import "std/bits" _)
(import "std/arithmetic" _)
(import "std/ord" _)
(function (opq x y) {(forall A) (-> A A A)} (if (eq? (array/length (args)) 77) y x))
(function (nan64) {(-> F64)} (/ (opq 0.0 1.0) 0.0))
(function (nan32) {(-> F32)} (/ (opq 0.0 1.0) 0.0))
(function (inf64) {(-> F64)} (/ (opq 1.0 2.0) 0.0))
(function (inf32) {(-> F32)} (/ (opq 1.0 2.0) 0.0))
"""


def enc(v, n):
    return list((v % (1 << (8 * n))).to_bytes(n, "little"))


def dec(w, s):
    return int.from_bytes(bytes(w), "little", signed=s)


def operands(rng, s, n):
    bits = 8 * n
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)
    edge = [0, 1, 2, 3, 7, 10, lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, lo // 2, -1 if s else hi, -2 if s else 5, bits - 1]
    r = rng.random()
    if r < 0.5:
        return rng.choice(edge)
    if r < 0.7:
        v = (1 << rng.randrange(bits)) + rng.choice([-1, 0, 1])
        if s and rng.random() < 0.5:
            v = -v
        return max(lo, min(hi, v))
    if r < 0.85:
        return rng.randint(max(lo, -20), 20)
    return rng.randint(lo, hi)


def float_operand(rng, p):
    r = rng.random()
    if r < 0.08:
        return {"c": "nan", "neg": False, "m": [0] * 12}
    if r < 0.16:
        return {"c": "inf", "neg": rng.random() < 0.5, "m": [0] * 12}
    top = rng.randrange(0, 74)          # bits of the magnitude in units of 2^-8
    m = rng.getrandbits(top) if rng.random() < 0.7 else max(0, (1 << top) + rng.choice([-1, 0, 1, 0]))
    # keep it representable
    d = m.bit_length() - p
    if d > 0:
        m = (m >> d) << d
    return {"c": "fin", "neg": rng.random() < 0.4, "m": list(m.to_bytes(12, "little"))}


def gen_chain(rng, cid, kind=None):
    """A chain record: init plus instructions; int and float phases."""
    s, n = rng.choice(list(TYPES.values()))
    prog = []
    fl = None

    if kind == "float" or (kind is None and rng.random() < 0.25):
        fl = rng.choice([24, 53])
        init = {"p": fl, "x": float_operand(rng, fl)}
    else:
        init = {"signed": s, "w": enc(operands(rng, s, n), n)}
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if fl is None:
            if r < 0.5:
                f = rng.choice(list(BIN))
                sw = rng.random() < 0.3
                v = operands(rng, s, n)
                if f in ("shl", "shr") and not sw:
                    v = rng.randrange(8 * n)
                prog.append({"k": "bin", "f": f, "rhs": enc(v, n), "swap": sw})
            elif r < 0.7:
                prog.append({"k": "cmp", "f": rng.choice(list(CMP)), "rhs": enc(operands(rng, s, n), n), "swap": rng.random() < 0.4})
            elif r < 0.8:
                prog.append({"k": "un", "f": rng.choice(list(UN))})
            elif r < 0.95:
                s, n = rng.choice(list(TYPES.values()))
                prog.append({"k": "conv", "signed": s, "n": n})
            else:
                fl = rng.choice([24, 53])
                prog.append({"k": "tofloat", "p": fl})
        else:
            if r < 0.35:
                prog.append({"k": rng.choice(["fadd", "fsub"]), "x": float_operand(rng, fl), "swap": rng.random() < 0.4})
            elif r < 0.6:
                prog.append({"k": "fcmp", "f": rng.choice(list(CMP)), "x": float_operand(rng, fl), "swap": rng.random() < 0.4})
            elif r < 0.7:
                prog.append({"k": "fself", "f": rng.choice(list(CMP))})
            elif r < 0.8:
                fl = rng.choice([24, 53])
                prog.append({"k": "fconv", "p": fl})
            else:
                s, n = rng.choice(list(TYPES.values()))
                prog.append({"k": "toint", "signed": s, "n": n})
                fl = None
    return {"id": cid, "init": init, "prog": prog}


def pair_chains(rng, ids, per):
    """Every binary and comparison operation of every type on a fixed set of boundary operands."""
    for (s, n) in TYPES.values():
        for f in list(BIN) + list(CMP):
            for _ in range(per):
                a, b = operands(rng, s, n), operands(rng, s, n)
                if f in ("shl", "shr"):
                    b = rng.randrange(8 * n)
                ins = {"k": "bin" if f in BIN else "cmp", "f": f, "rhs": enc(b, n), "swap": False}
                yield {"id": next(ids), "init": {"signed": s, "w": enc(a, n)}, "prog": [ins]}
        for s2, n2 in TYPES.values():
            for _ in range(max(1, per // 2)):
                yield {"id": next(ids), "init": {"signed": s, "w": enc(operands(rng, s, n), n)},
                       "prog": [{"k": "conv", "signed": s2, "n": n2}] + ([{"k": "conv", "signed": s, "n": n}] if rng.random() < .5 else [])}


def fval(x):
    v = Fraction(int.from_bytes(bytes(x["m"]), "little"), 256)
    return -v if x["neg"] else v


def flit(x, p):
    t = "F32" if p == 24 else "F64"
    if x["c"] == "nan":
        return f"(nan{t[1:]})"
    if x["c"] == "inf":
        return f"(negate (inf{t[1:]}))" if x["neg"] else f"(inf{t[1:]})"
    v = fval(x)
    whole, frac = divmod(abs(v), 1)
    digits = ""
    while frac:
        frac *= 10
        d, frac = divmod(frac, 1)
        digits += str(d)
    return f"{'-' if v < 0 else ''}{whole}.{digits or '0'} {{{t}}}"


def lit(v, ty, rng):
    l = f"{v} {{{ty}}}"
    return l if rng.random() < 0.5 else f"(opq {l} {v ^ 1 if v > 0 else v} {{{ty}}})"


def ty_of(o):
    return NAME[(o["signed"], len(o["w"]))] if o["k"] == "int" else ("F32" if o["p"] == 24 else "F64")


def same_float(expr, x, p):
    """Boolean llrl expression: does expr hold exactly x?"""
    if x["c"] == "nan":
        return f"(ne? {expr} {expr})"
    return f"(eq? {expr} {flit(x, p)})"


def emit(rec, outs, rng):
    """(llrl source, expected line). The chain is cut where the specification left the static types."""
    lines, want = [], []
    cur, n = outs[0], 0
    ty = ty_of(cur)
    first = lit(dec(cur["w"], cur["signed"]), ty, rng) if cur["k"] == "int" else f"(opq {flit(cur['x'], cur['p'])} 1.0)"
    binds = [("v0", first)]
    prints = []
    for i, o in zip(rec["prog"], outs[1:]):
        if o["k"] == "undef":
            if i["k"] == "toint":
                break
            continue
        v = f"v{n}"
        if i["k"] in ("bin", "cmp"):
            r = lit(dec(i["rhs"], cur["signed"]), ty_of(cur), rng)
            a, b = (r, v) if i["swap"] else (v, r)
            e = f"({(BIN if i['k'] == 'bin' else CMP)[i['f']]} {a} {b})"
        elif i["k"] in ("fadd", "fsub", "fcmp"):
            r = flit(i["x"], cur["p"])
            a, b = (r, v) if i["swap"] else (v, r)
            e = f"({'+' if i['k'] == 'fadd' else '-' if i['k'] == 'fsub' else CMP[i['f']]} {a} {b})"
        elif i["k"] == "fself":
            e = f"({CMP[i['f']]} {v} {v})"
        elif i["k"] == "un":
            e = f"({UN[i['f']]} {v})"
        else:
            e = f"(conv-to {ty_of(o)} {v})"
        if o["k"] == "bool":
            prints.append(e)
            want.append("#t" if o["b"] else "#f")
        else:
            n += 1
            binds.append((f"v{n}", e))
            cur = o
            if o["k"] == "int":
                prints.append(f"v{n}")
                want.append(str(dec(o["w"], o["signed"])))
            else:
                prints.append(same_float(f"v{n}", o["x"], o["p"]))
                want.append("#t")
    if not prints:
        return None
    src = "(let* (" + " ".join(f"[{n} {e}]" for n, e in binds) + ') (println! "' + rec["id"] + ' " ' + ' " " '.join(prints) + "))"
    return src, rec["id"] + " " + " ".join(want)


def run_chains(c, recs, what, per=40, configs=CONFIGS):
    exp = {}
    for i in range(0, len(recs), 20000):
        exp.update(c.tlc_batch("WordMachine", recs[i:i + 20000], heap="8g", timeout=800))
    items = []
    for r in recs:
        e = emit(r, exp[r["id"]]["out"], c.rng)
        if e:
            items.append((r["id"],) + e)
            c.part(what + "_operations", len(e[1].split()) - 1)
    groups = [items[i:i + per] for i in range(0, len(items), per)]

    def one(job):
        g, cfg = job
        # chains as functions so that top-level code stays small
        src = PRE + "\n".join(f"(function (f{k}) {{(-> unit)}} (begin {s} unit))\n(f{k})" for k, (_, s, _) in enumerate(g))
        r = run_llrl({"m": src}, "m", *cfg, work=c.work, timeout=300)
        if r["stage"] == "run" and r["rc"] == 0:
            got = {l.split(" ")[0]: l for l in r["out"].splitlines()}
            return [(i, s, w, got.get(i), cfg) for i, s, w in g if got.get(i) != w]
        if len(g) == 1:
            c.enough(1)
            return [(g[0][0], g[0][1], g[0][2], f"{r['stage']} rc={r['rc']} {r['msg'][-300:]}", cfg)]
        if c.enough():
            return [(g[0][0], g[0][1], g[0][2], f"group of {len(g)}: {r['stage']} rc={r['rc']} {r['msg'][-300:]}", cfg)]
        h = len(g) // 2
        return one((g[:h], cfg)) + one((g[h:], cfg))

    jobs = [(g, cfg) for g in groups for cfg in configs]
    seen = set()
    for res in pmap(one, jobs):
        for i, s, w, got, cfg in res:
            if i not in seen:
                seen.add(i)
                c.violation(f"{what} on {cfg[0]}{' -O' if cfg[1] else ''}: expected {w!r}, got {got!r}\n  {s}",
                            {"source": PRE + s, "expected": w, "got": got, "config": list(cfg)})
    c.validated(len(items) * len(configs))
    if items:
        c.sample({"chain": items[len(items) // 2][1], "values": items[len(items) // 2][2]}, 4)


def run(c):
    c.build(harness=False)
    full = "{" + ",".join(map(str, range(256))) + "}"
    c.tlc("WordLaws", consts=dict(As=full, Bs=full) if c.thorough else None, timeout=900)
    ids = (f"p{i}" for i in range(10**9))
    run_chains(c, list(pair_chains(c.rng, ids, c.pick(8, 60))), "pair", per=80)
    run_chains(c, [gen_chain(c.rng, next(ids)) for _ in range(c.pick(700, 8000))], "chain", per=40)
    c.assumptions = ["division by zero, MIN/-1 and shifts by the width or more are outside the property",
                     "float operands are multiples of 2^-8 below 2^72"]


if __name__ == "__main__":
    main("P03", run)
