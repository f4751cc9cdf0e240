"""Runs Program objects through LlrlCore.tla and through compiled executables, and compares the outputs."""
from vlib import *

CONFIGS = [("chibi", False), ("chibi", True), ("llvm", False), ("llvm", True)]
IMPORTS = "".join(f'(import "std/{m}" _)\n' for m in ("system", "control", "array"))


def expected(c, progs, heap="8g"):
    return c.tlc_batch("LlrlCore", [p.record() for p in progs], heap=heap, timeout=1500)


def module(progs, imports=IMPORTS):
    """One module running the given programs one after another, each announced by a marker line."""
    parts = [imports]
    for p in progs:
        parts.append(f'(println! "#### {p.id}")')
        parts.append(p.source())
    parts.append('(println! "#### end")')
    return "\n".join(parts)


def split_output(out):
    res, cur = {}, None
    for chunk in re.split(r"(?m)^(#### .*)\n", out):
        if chunk.startswith("#### "):
            cur = chunk[5:]
            res.setdefault(cur, "")
        elif cur is not None:
            res[cur] = chunk
    return res


def run_config(c, progs, cfg, compiler=None, imports=IMPORTS):
    """{id: output or None (with reason)} of the programs compiled together; bisects on failure."""
    backend, opt = cfg
    r = run_llrl({"m": module(progs, imports)}, "m", backend, opt, work=c.work, compiler=compiler, timeout=300)
    if r["stage"] == "run" and r["rc"] == 0:
        outs = split_output(r["out"])
        if "end" in outs:
            return {p.id: ("ok", outs.get(p.id)) for p in progs}
    if len(progs) == 1:
        c.enough(1)
        return {progs[0].id: (r["stage"], f"rc={r['rc']} {r['msg'][-800:]} out={r['out'][-300:]}")}
    if c.enough():
        return {progs[0].id: ("group " + r["stage"], f"{len(progs)} programs: rc={r['rc']} {r['msg'][-800:]} out={r['out'][-300:]}")}
    h = len(progs) // 2
    res = run_config(c, progs[:h], cfg, compiler, imports)
    res.update(run_config(c, progs[h:], cfg, compiler, imports))
    return res


def check_programs(c, progs, what, configs=CONFIGS, batch=15, compiler=None, imports=IMPORTS, marker=""):
    exp = expected(c, progs)
    usable = [p for p in progs if exp[p.id]["done"]]
    c.part(f"{what}_programs", len(usable))
    c.part(f"{what}_too_long", len(progs) - len(usable))
    groups = [usable[i:i + batch] for i in range(0, len(usable), batch)]
    jobs = [(g, cfg) for g in groups for cfg in configs]
    outs = pmap(lambda j: (j[1], run_config(c, j[0], j[1], compiler, imports)), jobs)
    byid = {p.id: p for p in usable}
    bad = set()
    for cfg, res in outs:
        for i, (st, o) in res.items():
            c.validated()
            want = "".join(exp[i]["out"])
            if st == "ok" and o == want:
                continue
            if i in bad:
                continue
            bad.add(i)
            p = byid[i]
            c.violation(f"{what} program {i} on {marker}{cfg[0]}{' -O' if cfg[1] else ''}: {st}\n--- expected\n{want[:600]}\n--- got\n{str(o)[:900]}",
                        {"source": module([p], imports), "config": list(cfg), "expected": want, "got": o, "stage": st})
    if usable:
        p = usable[len(usable) // 2]
        c.sample({"program": p.source()[:1500], "output": "".join(exp[p.id]["out"])[:300], "steps": exp[p.id]["steps"]}, 2)
    return exp
