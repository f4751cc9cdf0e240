"""P14: macros against Macro.tla: what macro code computes at compile time and at run time, and what programs
with macro uses in every position do once they are expanded."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import macrogen as mg

CONFIGS = [("chibi", False), ("llvm", False), ("chibi", False), ("llvm", True)]


def make(rng, wid, napply, nprog):
    g = mg.Gen(rng)
    mods = g.world()
    tasks = []
    for j in range(napply):
        mn, n, tags = rng.choice(g.trans)
        q = j % 2 == 1
        t = g.form(tags, q)
        head = mg.sym(n.replace("-a", "-q") if q else n)
        t = {"k": t["k"], "l": [head] + t["l"], **({"t": t["t"]} if t["k"] == "dot" else {})}
        tasks.append({"k": "apply", "m": mn, "f": n, "q": q, "t": t})
    for j in range(nprog):
        tasks.append({"k": "program", "forms": g.program(j, j % 4 == 3)})
    src = {mn: mg.module(mods, mn, rng) for mn in ("m1", "m2")}
    src["lib"] = mg.LIB
    rec = {"id": wid, "mods": mg.spec_world(mods), "tasks": mg.strip([{k: t[k] for k in ("k", "m", "f", "t", "forms") if k in t} for t in tasks])}
    return src, tasks, rec


def source(t):
    if t["k"] == "program":
        return "\n".join(map(mg.text, t["forms"]))
    return mg.text(t["t"]) if t["q"] else f"({t['f']}-f '{mg.text(t['t'])})"


def bundle(tasks, res):
    """one program for the tasks that the model completes, with the output it expects"""
    out, want = [mg.MAIN], []
    for j, (t, r) in enumerate(zip(tasks, res)):
        if t["k"] == "apply" and not t["q"]:
            out.append(f'(println! "# {j}")\n(show {source(t)})')
            want += [f"# {j}", ("ok " if r["ok"] else "err ") + r["o"][0]]
        elif r["ok"]:
            out.append(f'(println! "# {j}")')
            if t["k"] == "apply":
                out.append(f"(println! (dump {source(t)}))")
            else:
                out.append(source(t))
            want += [f"# {j}"] + r["o"]
    return "\n".join(out) + "\n", want


def plain(lines, made):
    """with the symbols made by gensym numbered in order of appearance, task by task"""
    out, seen = [], {}
    for l in lines:
        if l.startswith("# "):
            seen = {}
        out.append(re.sub(made, lambda x: "'@%d" % seen.setdefault(x[0], len(seen)), l))
    return out


def run(c):
    c.build(harness=False)
    nworld, napply, nprog = c.pick(20, 120), 44, 26
    worlds = [make(c.rng, i, napply, nprog) for i in range(nworld)]
    res = {}
    for k in range(0, nworld, 40):
        res.update(c.tlc_batch("Macro", [w[2] for w in worlds[k:k + 40]], timeout=1500))
    jobs = []
    for i, (src, tasks, rec) in enumerate(worlds):
        rs = res[i]["res"]
        for r in rs:
            r["m"] = mg.dec(r["m"])
            if not r["ok"] and r["o"]:
                r["o"] = [r["m"]]
        prog, want = bundle(tasks, rs)
        jobs.append((i, CONFIGS[i % len(CONFIGS)], {**src, "main": prog}, want, None))
        fails = [j for j, r in enumerate(rs) if not r["ok"] and not (tasks[j]["k"] == "apply" and not tasks[j]["q"])]
        progs = [j for j in fails if tasks[j]["k"] == "program"]
        apps = [j for j in fails if tasks[j]["k"] == "apply"]
        for j in progs[:c.pick(3, 6)] + apps[:c.pick(2, 5)]:
            jobs.append((i, CONFIGS[j % 2], {**src, "main": mg.MAIN + '(println! "ran")\n' + source(tasks[j]) + "\n"}, None, rs[j]["m"]))
        for t, r in zip(tasks, rs):
            c.part(f"{'compile-time' if t.get('q') else 'run-time'}_{'value' if r['ok'] else 'error'}" if t["k"] == "apply" else "program" if r["ok"] else "program_rejected", 1)

    def go(job):
        i, (backend, opt), files, want, m = job
        return job, run_llrl(files, "main", backend=backend, opt=opt, work=c.work, timeout=240)

    for (i, (backend, opt), files, want, m), r in pmap(go, jobs):
        cfg = f"{backend}{' -O' if opt else ''}"
        info = {"config": cfg, "files": files, "got": r, "want": want if want is not None else m}
        if want is None:
            c.validated()
            msg = m if m == "Cannot use macro defined in the same module" else "Macro expansion failed: " + m
            if r["stage"] != "compile":
                c.violation(f"on {cfg}: expected the compile error {msg!r}, but the program compiles", info)
            elif msg not in r["msg"]:
                c.violation(f"on {cfg}: expected the compile error {msg!r}: {r['msg'][-400:]}", info)
            continue
        if r["stage"] == "compile":
            c.violation(f"on {cfg}: a program whose macros expand does not compile: {r['msg'][-500:]}", info)
            continue
        got = plain(r["out"].split("\n")[:-1], r"'@\d+")
        want = plain(want, r"'%[^ )]+")
        c.validated(sum(1 for l in want if l.startswith("# ")))
        if r["rc"] != 0 or got != want:
            k = next((k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k] != want[k]), 0)
            task = next((l for l in reversed(want[:k + 1]) if l.startswith("# ")), "")
            src = source(worlds[i][1][int(task[2:])]) if task else ""
            c.violation(f"on {cfg}: {src}\ngives {got[k] if k < len(got) else '(end, status %s)' % r['rc']!r}\ninstead of {want[k] if k < len(want) else '(end)'!r}", info)
        else:
            c.sample({"config": cfg, "main": files["main"][-1500:]}, 3)


if __name__ == "__main__":
    main("P14", run)
