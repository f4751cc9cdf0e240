"""Shared machinery of the checks: building /repo, running TLC and the harness, evidence, verdicts.

Exit codes: 0 held, 1 VIOLATION, 2 the check itself could not run."""
import atexit, fcntl, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(REPO, "target")
LLRL0 = os.path.join(TARGET, "release", "llrl0")
COMPILER = None   # another compiler to be used instead of llrl0
HARNESS = os.path.join(TARGET, "release", "vharness")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def build_env():
    env = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        line = line.strip()
        if line.startswith("export "):
            for k, v in re.findall(r'(\w+)=("[^"]*"|\S*)', line[7:]):
                env[k] = v.strip('"')
        elif line.startswith("unset "):
            for k in line.split()[1:]:
                env.pop(k, None)
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTFLAGS", None)
    return env


def sh(cmd, cwd=None, env=None, timeout=600, inp=None):
    return subprocess.run(cmd, cwd=cwd, env=env or build_env(), timeout=timeout, input=inp,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.known_hits = []
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "open":
                        self.known.append(e)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.id} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- builds
    def build(self, llrl0=True, harness=True):
        env = build_env()
        env["CARGO_TARGET_DIR"] = TARGET
        with open("/tmp/.verif-build.lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            r = sh(["make", "-B", "-C", f"{REPO}/rt"], env=env)
            if r.returncode:
                raise ToolError("rt does not build:\n" + r.stdout[-3000:])
            if llrl0:
                r = sh(["cargo", "build", "--release", "-p", "llrl0", "--offline", "--locked", "-q"], cwd=REPO, env=env, timeout=850)
                if r.returncode:
                    raise ToolError("llrl0 does not build:\n" + r.stdout[-3000:])
            if harness:
                r = sh(["cargo", "build", "--release", "--offline", "--locked", "-q"], cwd=f"{VERIF}/harness", env=env, timeout=850)
                if r.returncode:
                    raise ToolError("harness does not build:\n" + r.stdout[-3000:])
        self.log("built")

    # --------------------------------------------------------------- harness
    def harness(self, cmd, cases, shards=None, timeout=300):
        """Run cases (list of dicts with unique "id") through the harness; {id: result}."""
        shards = shards or min(NCPU, max(1, len(cases) // 20))
        groups = [cases[i::shards] for i in range(shards)]
        res = {}

        def one(group):
            out = {}
            rest = list(group)
            while rest:
                inp = "".join(json.dumps(c) + "\n" for c in rest)
                try:
                    r = subprocess.run([HARNESS, cmd], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       text=True, env=build_env(), timeout=timeout)
                    text, rc = r.stdout, r.returncode
                except subprocess.TimeoutExpired as e:
                    text, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
                n = 0
                for line in text.splitlines():
                    try:
                        v = json.loads(line)
                    except ValueError:
                        break
                    out[v["id"]] = v
                    n += 1
                if n < len(rest):
                    # the code under test killed or hung the driver on this case
                    out[rest[n]["id"]] = {"id": rest[n]["id"], "crash": str(rc)}
                    rest = rest[n + 1:]
                else:
                    rest = []
            return out

        with ThreadPoolExecutor(shards) as ex:
            for o in ex.map(one, groups):
                res.update(o)
        return res

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, consts=None, env=None, workers=None, extra=(), timeout=600,
            expect_violation=False, heap="6g", stack="64m", count=True, props=None):
        """Run TLC on spec/<module>.tla. Returns dict(out, lines(JSON printed), states, distinct, violated, trace)."""
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cfgfile = os.path.join(SPEC, cfg or module + ".cfg")
        if consts or props:
            text = open(cfgfile).read()
            for k, v in (consts or {}).items():
                text, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{k}\s*=).*$", lambda m: f"{m.group(1)} {v}", text)
                if n == 0:
                    text += f"\nCONSTANT {k} = {v}\n"
            text += "\n" + (props or "")
            cfgfile = os.path.join(meta, "run.cfg")
            open(cfgfile, "w").write(text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", f"-Xss{stack}", "-XX:+UseParallelGC", "-Dtlc2.TLC.ide=false",
               f"-Djava.io.tmpdir={meta}", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(meta, "states"), "-workers",
               str(workers or NCPU), "-config", cfgfile, *extra, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} after {timeout}s")
        out = r.stdout
        shutil.rmtree(meta, ignore_errors=True)
        lines = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    lines.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        violated = None
        m = re.search(r"Error: (?:Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|The postcondition (\S+)|Deadlock reached)", out)
        if m:
            violated = next((g for g in m.groups() if g), m.group(0))
        ok = "Model checking completed. No error has been found" in out or (r.returncode == 0)
        if not ok and not violated:
            raise ToolError(f"TLC failed on {module} (rc {r.returncode}):\n" + out[-4000:])
        if violated and not expect_violation:
            # the specification itself does not satisfy its properties: the check is broken
            raise ToolError(f"TLC: specification {module} violates {violated}:\n" + out[-4000:])
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        self.log(f"TLC {module}: {gen} generated, {dist} distinct, {len(lines)} records, {time.time()-t:.1f}s")
        return dict(out=out, lines=lines, states=gen, distinct=dist, violated=violated)

    def tlc_batch(self, module, records, cfg=None, env=None, shards=1, timeout=600, workers=None, **kw):
        """Let the specification evaluate a batch of records: the spec reads IOEnv.BATCH (ndjson),
        prints one JSON result per record with its "id". Returns {id: result}."""
        if not records:
            return {}
        path = os.path.join(self.work, f"batch-{module}-{random.getrandbits(40):x}.ndjson")
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        e = dict(env or {})
        e["BATCH"] = path
        r = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers, **kw)
        os.remove(path)
        res = {}
        for v in r["lines"]:
            res[v["id"]] = v
        missing = [x["id"] for x in records if x["id"] not in res]
        if missing:
            raise ToolError(f"{module}: {len(missing)} records without a verdict, e.g. {missing[:3]}\n" + r["out"][-3000:])
        return res

    # --------------------------------------------------------------- verdict
    def validated(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def part(self, name, n):
        self.parts[name] = self.parts.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def enough(self, add=0):
        """True when isolating further failing cases is pointless (several are known, or time runs out)."""
        self.suspects = getattr(self, "suspects", 0) + add
        return self.suspects >= 5 or time.time() - self.t0 > (600 if not self.thorough else 10**6)

    def violation(self, what, replay):
        """what: short text; replay: JSON-able case. Known findings are reported separately."""
        key = replay.get("key") if isinstance(replay, dict) else None
        for k in self.known:
            if key is not None and key == k.get("key"):
                if k["key"] not in [h["key"] for h in self.known_hits]:
                    self.known_hits.append(k)
                return
        self.viol.append((what, replay))

    def finish(self):
        if self.tier == "quick" or True:
            pass
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {**self.cov, "parts": self.parts}, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.id}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.id} {k['what']}", flush=True)
        if self.viol:
            d = f"{VERIF}/evidence/replays"
            os.makedirs(d, exist_ok=True)
            path = f"{d}/{self.id}.json"
            with open(path, "w") as f:
                json.dump([{"what": w, "case": c} for w, c in self.viol[:20]], f, indent=1)
            for w, c in self.viol[:5]:
                print(f"  {w[:1500]}", flush=True)
            print(f"{len(self.viol)} violation(s)")
            print(f"VIOLATION property={self.id} replay={path}", flush=True)
            sys.exit(1)
        self.log("held:", json.dumps({k: v for k, v in self.cov.items() if k != "samples"}), json.dumps(self.parts))
        sys.exit(0)


# ------------------------------------------------------------------ llrl runs
def run_llrl(files, entry, backend="chibi", opt=False, args=None, timeout=120, extra=(), work=None, compiler=None, run=True):
    """Write files {name: src} to a scratch package, compile entry, run it. Returns dict."""
    d = tempfile.mkdtemp(prefix="llrl", dir=work)
    try:
        for n, s in files.items():
            p = os.path.join(d, n + ".llrl")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(s)
        exe = os.path.join(d, "a.out")
        cmd = [compiler or COMPILER or LLRL0, "-b", backend, "-o", exe, *extra]
        if opt:
            cmd.append("-O")
        cmd.append(entry)
        env = build_env()
        env["TMPDIR"] = d
        try:
            c = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return dict(stage="compile", rc="timeout", out="", msg="compiler timed out")
        if c.returncode != 0 or not os.path.exists(exe):
            return dict(stage="compile", rc=c.returncode, out="", msg=c.stdout[-3000:])
        if not run:
            return dict(stage="compiled", rc=0, out="", msg="")
        try:
            r = subprocess.run([exe, *(args or [])], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return dict(stage="run", rc=r.returncode, out=r.stdout.decode("utf-8", "surrogateescape"),
                        msg=r.stderr.decode(errors="replace")[-2000:])
        except subprocess.TimeoutExpired as e:
            return dict(stage="run", rc="timeout", out=(e.stdout or b"").decode(errors="replace"), msg="program timed out")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except ToolError as e:
        print(f"TOOL-ERROR property={pid}: {e}", flush=True)
        sys.exit(2)
    c.finish()
