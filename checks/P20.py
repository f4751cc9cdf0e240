"""P20: every behaviour of Driver.tla replayed as a real command line."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ENTRY = {0: ["main"], 1: ["main.llrl"], 2: ["sub/main"], 3: ["missing"], 4: ["bad"], 5: ["cyc"], 6: ["sub//main"], 7: ["main", "other"],
         8: ["main", "main"], 9: ["unread"], 10: ["main", "missing"]}
IMPORT = {0: "", 1: '(import "p/lib" greeting)', 2: '(import "pk/lib" greeting)', 3: '(import "p" greeting)'}
STDIN = bytes(range(256)) * 3
MAIN = '''%s
(import "std/system" args exit!)
(import "std/array" array/_)
(import "std/io" stdin _.File)
(import "std/rw" _)
%s(ignore (println! "main"))
($when ($feature "f1") (ignore (println! "f1")))
($when ($feature "f2") (ignore (println! "f2")))
($when ($not ($feature "f2")) (ignore (println! "no f2")))
(for (let a) (args) (ignore (println! "arg " a)))
(let ([sum (ref (annotate 0 U64))] [bytes (match (annotate (read-bytes-to-end! stdin) (Result (Array U8) IoError)) [(ok (let b)) b] [_ array/empty])])
  (for (let b) bytes (set! sum (+ (* 31 ~sum) (+ 1 (annotate (conv b) U64)))))
  (ignore (println! "stdin " ~sum)))
(ignore (eprintln! "to stderr"))
%s
(ignore (println! "end"))
'''
SUM = 0
for _b in STDIN:
    SUM = (31 * SUM + _b + 1) % (1 << 64)


def lay_out(d, cfg):
    os.makedirs(d + "/sub")
    os.makedirs(d + "/pk")
    os.makedirs(d + "/dir")
    os.makedirs(d + "/tmp")
    end = ["", "(exit! 7)", "(exit! 0)", '(assert #f "stop")', "(exit! 300)"][cfg["ending"]]
    main = MAIN % (IMPORT[cfg["imports"]], "(ignore (println! greeting))\n" if cfg["imports"] else "", end)
    main = main.replace('(import "std/io" stdin _.File)', '(import "std/io" stdin _.File IoError _.IoError)')
    w = lambda n, s: open(f"{d}/{n}.llrl", "w").write(s)
    w("main", main)
    w("sub/main", main)
    w("other", '(ignore (println! "other"))\n')
    w("bad", '(function (f) {(-> I32)} "text")\n')
    w("cyc", '(import "~/cyc2" _)\n')
    w("cyc2", '(import "~/cyc" _)\n')
    w("unread", '(println! "a"\n')
    w("pk/lib", '(export greeting)\n(function greeting {String} "from pk lib")\n')
    w("pk/prelude", '(export greeting)\n(function greeting {String} "from pk prelude")\n')


def command(cfg, args, rng):
    short = lambda a, b: rng.choice([a, b])
    opts = []
    b = ["chibi", "llvm", "default", None, "bogus"][cfg["backend"]]
    if b:
        opts.append([short("-b", "--backend"), b])
    if cfg["output"]:
        opts.append([short("-o", "--output"), [None, "out", "dir/out", "nodir/out"][cfg["output"]]])
    if cfg["run"]:
        opts.append([short("-r", "--run")])
    for j, f in enumerate(["f1", "f2"]):
        if cfg["feature"] >> j & 1:
            opts.append([short("-f", "--feature"), f])
            if cfg["dup"]:
                opts.append([short("-f", "--feature"), f])
    for p in {1: ["p:pk"], 2: ["pk"], 3: ["std:pk"], 4: ["a:b:c"], 5: ["~:pk"], 6: ["p:pk", "p:pk"], 7: ["p:nodir"]}.get(cfg["package"], []):
        opts.append([short("-p", "--package"), p])
    if cfg["opt"]:
        opts.append([short("-O", "--optimize")])
    if cfg["verbose"]:
        opts.append([short("-v", "--verbose")])
    if cfg["clang"]:
        opts.append([short("-c", "--clang-option") + "=" + [None, "-lm", "-lnosuchlibrary"][cfg["clang"]]])
    rng.shuffle(opts)
    opts.insert(rng.randrange(len(opts) + 1), ENTRY[cfg["entry"]])
    return [x for o in opts for x in o] + (["--", *args] if args else [])


def judge(e, rc, out, err, made, stage):
    """None or what is wrong; stage is "driver" or "executable"."""
    want = [l if l != "stdin" else f"stdin {SUM}" for l in (e["out"] if stage == "driver" else e["lines"])]
    text = "".join(l + "\n" for l in want)
    status = e["status"] if stage == "driver" else ("failure" if e["ends"] in ("killed", '"killed"') else "success" if e["ends"] == "0" else e["ends"])
    # a killed program loses what it had not flushed
    killed = e["ends"] in ("killed", '"killed"')
    if not (out == text or killed and text.startswith(out)):
        return f"standard output is {out[-400:]!r}, expected {text!r}"
    if status == "success" and rc != 0 or status == "failure" and rc == 0 or status not in ("success", "failure") and rc != int(status):
        return f"status {rc}, expected {status}"
    ran = e["ran"] if stage == "driver" else True
    if ("to stderr" in err.splitlines()) != ran:
        return f"the program {'ran' if not ran else 'did not run'}: standard error is {err[-300:]!r}"
    if stage == "driver" and status == "failure" and not ran and not err.strip():
        return "a failure without a message"
    if stage == "driver" and made != e["made"]:
        return f"the output file {'exists' if made else 'does not exist'}"
    return None


def judge_any(group, *a):
    bad = None
    for e in group:
        bad = judge(e, *a)
        if not bad:
            return None
    return bad


def check(c):
    c.build(harness=False)
    if c.thorough:
        es = c.tlc("Driver", consts={"Depth": 3, "Slices": 6, "Slice": c.seed % 6}, timeout=1500)["lines"]
    else:
        es = c.tlc("Driver", consts={"Depth": 2, "Slices": 2, "Slice": c.seed % 2})["lines"]
        es += c.tlc("Driver", consts={"Depth": 1})["lines"]
    groups = {}
    for e in es:
        groups.setdefault(json.dumps(e["cfg"], sort_keys=True), {})[json.dumps(e, sort_keys=True)] = e
    es = [list(g.values()) for g in groups.values()]   # one behaviour per choice the model leaves open
    seeds = [c.rng.random() for _ in es]

    def go(arg):
        n, group = arg
        e, cfg = group[0], group[0]["cfg"]
        d = os.path.join(c.work, f"d{n}")
        lay_out(d, cfg)
        cmd = command(cfg, e["args"], random.Random(seeds[n]))
        env = build_env()
        env["TMPDIR"] = d + "/tmp"
        bad, runs = None, 0
        try:
            r = subprocess.run([LLRL0, *cmd], cwd=d, env=env, input=STDIN, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            path = os.path.join(d, {0: "none", 1: "out", 2: "dir/out", 3: "nodir/out"}[cfg["output"]])
            made = os.path.exists(path) and os.access(path, os.X_OK)
            bad = judge_any(group, r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), made, "driver")
            if not bad and made:
                runs = 1
                r = subprocess.run([path, *e["args"]], cwd=d, env=env, input=STDIN, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                bad = judge_any(group, r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), made, "executable")
                bad = bad and "run on its own: " + bad
        except subprocess.TimeoutExpired:
            bad = "timed out"
        shutil.rmtree(d, ignore_errors=True)
        return e, cmd, bad, runs

    for e, cmd, bad, runs in pmap(go, list(enumerate(es))):
        c.validated(1 + runs)
        c.part(e["status"], 1)
        c.part("executables run", runs)
        if bad:
            c.violation(f"llrl0 {' '.join(map(repr, cmd))}: {bad}", {"cfg": e["cfg"], "command": cmd, "model": e})
        else:
            c.sample({"command": cmd, "status": e["status"], "out": e["out"]}, 4)


if __name__ == "__main__":
    main("P20", check)
