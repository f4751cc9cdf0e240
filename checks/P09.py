"""P09: collected sources, their order and errors judged by SourceGraph.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["a", "b", "c", "sub/a", "sub/b", "sub/prelude", "deep/er/x", "a-b", "é", "v1.2", "v1", "std", "sub", "x y", "B", "v1.3"]
FSNAMES = NAMES


def show(path):
    return "/".join(path)


def case(c, i, where):
    rng = c.rng
    big = rng.random() < 0.03
    pkgs = ["~"] + rng.sample(["p", "q", "long-name", "sub"], rng.randrange(0, 3))
    mods = {}
    n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if not big else 60
    for _ in range(n):
        pkg = rng.choice(pkgs)
        part = rng.choice(NAMES) if not big else f"m{rng.randrange(60)}"
        path = (pkg,) if rng.random() < 0.15 else (pkg, *part.split("/"))
        mods.setdefault(path, None)
    allpaths = list(mods)
    acyclic = rng.random() < 0.6
    level = {p: k for k, p in enumerate(rng.sample(allpaths, len(allpaths)))}
    std = rng.random() < 0.3
    records, texts = [], {}
    broken = rng.random() < 0.4
    for path in allpaths:
        imports, lines = [], []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            k = rng.random()
            if broken and k < 0.06:
                s = rng.choice([["nopkg"], ["nopkg", "x"], ["~", "nomodule"], ["p", "no", "such"], ["std", "nomodule"], ["~", "nomodule2"]])
            elif broken and k < 0.12:
                s = rng.choice([[""], ["~", ""], ["~", "a", ""], ["~", "", "a"], [".", "a"], ["..", "a"], ["~", "..", "a"], ["~", ".", "a"], ["~", "~"],
                                ["p", "a", "..", "b"], ["", "a"], ["~", "a", "~"]])
            elif broken and k < 0.15:
                s = list(path) if path[0] == "~" or rng.random() < 0.5 else ["~", *path[1:]]
            elif k < 0.2:
                s = rng.choice([["builtin"], ["builtin", "prelude"], ["std"], ["std", "prelude"], ["builtin"]])
            else:
                t = rng.choice(allpaths)
                if acyclic and level[t] >= level[path]:
                    continue
                s = list(t)
                if t[0] == path[0] and t[0] != "~" and rng.random() < 0.5:
                    s[0] = "~"                         # relative to the package
                elif path[0] != "~" and t[0] == "~":
                    continue
                if len(s) == 1 and rng.random() < 0.4:
                    s.append("prelude")
            imports.append(s)
            lines.append(f'(import "{show(s)}"{rng.choice(["", " _", " f", " [g f] x/_"])})')
            if rng.random() < 0.1:                     # a duplicate counts as one dependency but as two errors
                imports.append(s)
                lines.append(lines[-1])
        nostd = rng.random() < 0.6
        if nostd:
            lines.append("(no-implicit-std)")
        lines += rng.sample(["(function f {I32} 1)", '"(import \\"~/zzz\\")"', '; (import "~/zzz")', '(f (import "~/zzz"))', "'(import \"~/zzz\")",
                             '(import* "~/zzz")', '(import)', '($when ($feature "off") (import "~/zzz"))', "(no-implicit-std 1)", "42", '(import zzz)'], rng.randrange(4))
        if rng.random() < 0.1:
            t = rng.choice(allpaths)
            if (not acyclic or level[t] < level[path]) and t[0] == path[0]:
                imports.append(["~", *t[1:]] if len(t) > 1 else ["~"])
                lines.append(f'($for1 $t ["{show(imports[-1])}"] ($when ($feature "on") (import $t _)))')
        rng.shuffle(lines)
        kind = "ok"
        if broken and rng.random() < 0.2:
            kind = rng.choice(["token", "torn", "pp"] + (["unreadable"] if where == "fs" else []))
            if kind == "token":
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(["#zzz", "(f #zzz)"]))
            elif kind == "torn":
                lines.insert(rng.randrange(len(lines) + 1), rng.choice([")", "(f", "]", "(f ]"]))
            elif kind == "pp":
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(["$undefined", "(f $undefined)", "($let)", "($when 1 2)"]))
        records.append({"path": list(path), "kind": kind, "nostd": nostd, "imports": imports})
        texts[path] = rng.choice(["\n", " \n", "\n\n"]).join(lines) + "\n"
    records.append({"path": ["std"], "kind": "ok", "nostd": not (broken and rng.random() < 0.03), "imports": []})
    texts[("std",)] = "(no-implicit-std)" if records[-1]["nostd"] else ""
    records.append({"path": ["builtin"], "kind": "ok", "nostd": True, "imports": []})
    entries = rng.sample(allpaths, rng.randrange(1, min(4, len(allpaths)) + 1))
    if broken and rng.random() < 0.1:
        entries.append(("~", "noentry"))
    if rng.random() < 0.1:
        entries.append(entries[0])
    rec = {"id": i, "modules": records, "packages": sorted({"std", "builtin"} | {p[0] for p in texts}), "entries": [list(e) for e in entries]}
    h = {"id": i, "entries": [show(e) for e in entries], "features": ["on"]}
    if where == "mem":
        h["mods"] = {show(p): t for p, t in texts.items()}
        return h, rec
    # the same as directories
    base = os.path.join(c.work, f"fs{i}")
    rec["packages"] = sorted(set(pkgs) | {"std", "builtin"})
    h["fs"] = {}
    for pkg in set(pkgs) | {"std"}:
        d = os.path.join(base, "cur" if pkg == "~" else pkg)
        os.makedirs(d)
        h["fs"][pkg] = d
        for p, t in texts.items():
            if p[0] == pkg:
                f = os.path.join(d, *(p[1:] or ["prelude"])) + ".llrl"
                os.makedirs(os.path.dirname(f), exist_ok=True)
                kind = next(r["kind"] for r in records if tuple(r["path"]) == p)
                data = t.encode() + (b"\xff\xfe" if kind == "unreadable" else b"")
                open(f, "wb").write(data)
    return h, rec


def check(c):
    c.build(llrl0=False)
    c.tlc("SourceCollect", consts={"N": c.pick(2, 3)}, timeout=1200)
    cases = [case(c, i + 1, "fs" if i % 4 == 3 else "mem") for i in range(c.pick(1600, 20000))]
    res = c.harness("collect", [h for h, _ in cases], timeout=240 if not c.thorough else 1500)
    recs, byid = [], {}
    parse = lambda s: s.split("/")
    for h, rec in cases:
        r = res[rec["id"]]
        byid[rec["id"]] = (h, rec, r)
        if "sources" not in r:
            c.violation(f"collecting sources fails: {json.dumps(r)[:300]}", {"case": h})
            continue
        rec["sources"] = [{"path": parse(s["path"]), "std": s["std"], "errors": s["errors"], "deps": [[parse(a), parse(b)] for a, b in s["deps"]]} for s in r["sources"]]
        rec["order"] = [parse(x) for x in r.get("order", [])]
        rec["cycle"] = [parse(x) for x in r.get("cycle", [])]
        recs.append(rec)
    verdicts = c.tlc_batch("SourceGraph", recs, timeout=1500)
    for rec in recs:
        h, _, r = byid[rec["id"]]
        c.validated()
        c.part("sources", len(rec["sources"]))
        c.part("cyclic" if rec["cycle"] else "ordered", 1)
        c.part("errors", sum(len(s["errors"]) for s in rec["sources"]))
        v = verdicts[rec["id"]]["verdict"]
        if v:
            c.violation(f"{v}; entries {h['entries']} of {json.dumps(h.get('mods') or h.get('fs'))[:900]}", {"case": h, "record": rec, "result": r})
        else:
            c.sample({"case": h, "order": r.get("order"), "cycle": r.get("cycle")}, 3)


if __name__ == "__main__":
    main("P09", check)
