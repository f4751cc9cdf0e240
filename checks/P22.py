"""P22: the self-hosted compiler against the specifications of the language."""
import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, "..", "lib"), D]
import vlib, mapcheck
from vlib import *
from coregen import *
from corerun import *
from P02 import DataGen
import P03, P07, P12, P13, P18
import selfhost, sexp, glob
from seqcheck import run_seq

CONFIGS = [("chibi", False), ("llvm", False)]


def self_hosted(c, backend="chibi"):
    """The compiler written in llrl, compiled by llrl0 from the current tree."""
    exe = os.path.join(c.work, "llrl1")
    cfg = sh(["llvm-config", "--cppflags", "--ldflags", "--libs", "--system-libs"]).stdout.split()
    flags = ["-fllvm-backend", "-pllvm:../llvm1", "-c../llvm1/compat.c"] + ["-c" + x for x in cfg] + ["-c-lstdc++", "-fchibi-backend", "-pxten:../xten1"]
    env = build_env()
    env["TMPDIR"] = c.work
    r = sh([LLRL0, "-b", backend, "-o", exe, *flags, "-O", "main"], cwd=f"{REPO}/llrl1", env=env, timeout=600)
    if r.returncode or not os.path.exists(exe):
        c.violation(f"the self-hosted compiler is not compiled: {r.stdout[-1500:]}", {"out": r.stdout[-3000:]})
        return None
    return exe


def verdicts(c, n):
    """Acceptance of modules that match over random types."""
    recs = []
    for j in range(n):
        src, types, top, rows = P07.e2e_case(c.rng)
        recs.append({"id": j, "types": types, "cols": [top], "rows": [[r] for r in rows], "full": False, "src": src})

    def go(r):
        x = run_llrl({"m": r["src"]}, "m", work=c.work, run=False, extra=("-v",))
        if x["stage"] == "compiled":
            return "ok"
        m = re.search(r"Useless pattern|Non-exhaustive pattern", x["msg"])
        return {"Useless pattern": "useless", "Non-exhaustive pattern": "missing"}[m.group(0)] if m else f"rc={x['rc']} {x['msg'][-500:]}"

    for r, v in zip(recs, pmap(go, recs)):
        r["got"] = {"verdict": v, "rows": []}
    judge = []
    for r in recs:
        if r["got"]["verdict"] in ("ok", "useless", "missing"):
            judge.append(r)
        else:
            c.violation(f"self-hosted: neither accepted nor a pattern error: {r['got']['verdict']}\n{r['src']}", {"src": r["src"]})
    res = c.tlc_batch("PatMatch", [{k: x for k, x in r.items() if k != "src"} for r in judge], timeout=900)
    for r in judge:
        v = res[r["id"]]
        c.validated()
        c.part(f"module_{v['verdict']}", 1)
        if not v["ok"]:
            c.violation(f"self-hosted: module judged {r['got']['verdict']}, the specification says {v['verdict']} (clause {v['at']}):\n{r['src']}", {"src": r["src"], "model": v})


MACROS = ["""(import "~/lib" _)
(println! "not reached" (boom 1 2))
""", """(function (f x) (bad! x))
""", """(println! ($symbol "a" 1))
"""]
LIB = """(import "std/s" s/_)
(export boom bad!)
(macro (boom s) (err (string "boom " s)))
(macro (bad! s) (s/match s [(_ ,a ,b) (ok `(,a ,b))] [_ (err "bad: two arguments")]))
"""


def errors(c):
    """A macro's own error is a diagnostic and a failing status, and the message is the macro's."""
    for i, (use, msg) in enumerate([("(boom 1 2)", "boom (boom 1 2)"), ("(bad! 1)", "bad: two arguments"), ("(let ([x (boom)]) x)", "boom (boom)")]):
        for b, _ in CONFIGS:
            r = run_llrl({"lib": LIB, "m": f'(import "~/lib" _)\n(function (f) {use})\n'}, "m", backend=b, work=c.work, run=False)
            c.validated()
            if r["stage"] != "compile" or r["rc"] != 1 or msg not in r["msg"]:
                c.violation(f"self-hosted on {b}: the macro error {msg!r} is reported as rc={r['rc']} {r['msg'][-400:]}", {"use": use})


def readable(t):
    """Trees whose printed form denotes them: $symbol also makes symbols that no text denotes."""
    if t["k"] == "sym" and not re.fullmatch(r"[a-zA-Z$_][a-zA-Z0-9$_.:/*-]*[a-zA-Z0-9$_]|[a-zA-Z$_-]|\.\.\.", t["s"]):
        return False
    return all(map(readable, t.get("l", []))) and (t["k"] != "dot" or readable(t["t"]))


def front_end(c, n):
    """The reader and the preprocessor of the self-hosted compiler against Reader.tla and Preproc.tla."""
    g = P13.Gen(c.rng)
    g.corpus = [open(f).read() for f in sorted(glob.glob(f"{REPO}/std/*.llrl") + glob.glob(f"{REPO}/llrl1/*.llrl"))]
    texts = P13.FIXED + P13.WORDS + [g.text() for _ in range(n)]
    pres = [P12.case(c.rng, len(texts) + j) for j in range(n)]
    got = selfhost.front(c, [(j, False, t, []) for j, t in enumerate(texts)] + [(r["id"], True, " ".join(sexp.text(t, c.rng) for t in r["ts"]), r["fs"]) for r in pres], per=200)
    model = c.tlc_batch("Reader", [{"id": j, "t": [ord(x) for x in t]} for j, t in enumerate(texts)], timeout=900)
    model.update(c.tlc_batch("Preproc", pres, timeout=900))
    shown = c.harness("read", [{"id": j, "text": v[1]} for j, v in got.items() if v[0] == "ok"])
    for j, m in model.items():
        what = repr(texts[j]) if j < len(texts) else "preprocessing " + " ".join(map(sexp.text, pres[j - len(texts)]["ts"]))
        if j not in got:
            if not c.viol:
                c.violation(f"self-hosted: no answer for {what}", {"text": what})
            continue
        c.validated()
        c.part("self_hosted_read" if j < len(texts) else "self_hosted_preprocess", 1)
        v, out = got[j]
        if m["ok"] != (v == "ok"):
            c.violation(f"self-hosted: {what} is answered {v}, the specification says {'ok' if m['ok'] else 'an error'}", {"text": what, "got": v})
        elif m["ok"] and (j < len(texts) or all(map(readable, m["l"]))):
            want = [P13.zero(P13.bare(P13.conv(x, m["at"]))) for x in m["x"]] if j < len(texts) else [P13.zero(x) for x in m["l"]]
            h = shown[j]
            is_ = [P13.bare(P13.norm(x)) for x in h.get("x", [])]
            if len(is_) != len(want) or not all(map(P13.same, want, is_)):
                c.violation(f"self-hosted: {what} becomes {out!r} instead of " + "\n".join(map(sexp.text, want)), {"text": what, "out": out})


def run(c):
    c.build()
    front_end(c, c.pick(700, 6000))
    c.log("reader and preprocessor")
    exe = self_hosted(c)
    if not exe:
        return
    c.log("self-hosted compiler built")
    vlib.COMPILER = exe
    verdicts(c, c.pick(240, 3000))
    c.log("verdicts")
    errors(c)
    for rnd in range(c.pick(1, 12)):
        progs = [Gen(c.rng, f"g{rnd}x{i}", f"g{i}", size=c.rng.choice([0.6, 1.0, 1.6, 2.5]), bare=c.rng.choice([0, 0, 0.4])).generate() for i in range(c.pick(60, 100))]
        check_programs(c, progs, "random", configs=CONFIGS, batch=20)
        c.log("random programs")
        progs = [DataGen(c.rng, f"d{rnd}x{i}", f"d{i}", nums=c.rng.choice([0.1, 0.4, 0.6]), wide=c.rng.random() < 0.6).generate() for i in range(c.pick(36, 48))]
        check_programs(c, progs, "data", configs=CONFIGS, batch=12)
        c.log("data programs")
        ids = (f"p{rnd}x{i}" for i in range(10**9))
        P03.run_chains(c, list(P03.pair_chains(c.rng, ids, 2)) + [P03.gen_chain(c.rng, next(ids)) for _ in range(200)], "arithmetic", per=150, configs=CONFIGS)
        c.log("arithmetic")
        P18.scripts(c, 1, 14, CONFIGS)
        c.log("derived instances")
        run_seq(c, 30, CONFIGS)
        mapcheck.run(c, rnd % 2 == 1, 10, CONFIGS)
        if c.viol:
            break
    if c.thorough and not c.viol:
        vlib.COMPILER = None
        exe = self_hosted(c, "llvm")
        if exe:
            vlib.COMPILER = exe
            progs = [Gen(c.rng, f"h{i}", f"h{i}", size=1.6).generate() for i in range(200)]
            check_programs(c, progs, "random", configs=CONFIGS, batch=20, marker="llrl1l ")
    c.assumptions = ["the assumptions of the parts of P01, P02, P03, P07, P15-P18 that are reused here"]


if __name__ == "__main__":
    main("P22", run)
