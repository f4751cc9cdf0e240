"""P19: assembled objects, loaded by the JIT engine or linked as ELF files, against Link.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

FAR = {"x1", "x2", "x5"}
LEN = {"w": 3, "d": 3, "p": 2, "q": 2}
CALL, CALLAT = ["call", "callreg"], ["callat", "callregat"]


def kind(name): return {"x": "f" if name in ("x1", "x2", "x3", "x4") else "d"}.get(name[0], name[0])


class History:
    def __init__(self, rng, hid, elf):
        self.r, self.id, self.elf = rng, hid, elf
        self.known, self.steps, self.res, self.serial = {}, [], {"zz": 1}, 0    # name -> cost of running it
        r = rng
        for k in range(1, 7):
            if r.random() < 0.5:
                self.steps.append({"o": "reg", "name": f"x{k}", "ext": k})
                self.known[f"x{k}"] = 1
            elif not elf and r.random() < 0.5:
                self.res[f"x{k}"] = k
        self.risk = r.random() < 0.3                    # whether something may be refused
        self.big = r.random() < 0.35
        if elf:
            self.load(r.choice([1, 2, 3, 4, 6]))
        elif r.random() < 0.02:
            self.bulk()
        else:
            for _ in range(r.choice([1, 2, 4, 8, 14])):
                self.load(1)
                if r.random() < 0.03:
                    self.steps.append({"o": "reg", "name": r.choice(sorted(self.known) or ["f1"]), "ext": r.randint(1, 6)})
                    self.known.setdefault(self.steps[-1]["name"], 1)
                self.look(r.choice([0, 0, 1, 3]))
        self.look(12, True)

    def bulk(self):
        """More entries in the table of addresses than a page holds."""
        n = self.r.choice([300, 600])
        names = [f"g{k}" for k in range(n)]
        def fn(l, ops): return {"l": l, "sec": "text", "g": True, "pad": self.r.choice([0, 0, 3]), "ops": ops, "words": []}
        def op(o, l=0, n=0): return {"o": o, "l": l, "n": n, "w": 0}
        self.steps.append({"o": "objs", "objs": [{"labels": names, "items": [fn(k + 1, [op("const", 0, k)]) for k in range(n)]}]})
        for t in range(2):
            use = names if t else names[::2]
            self.steps.append({"o": "objs", "objs": [{"labels": use + [f"f{t}"], "items": [fn(len(use) + 1, [op("callat", k + 1) for k in range(len(use))])]}]})
            self.known[f"f{t}"] = 1
            self.steps.append({"o": "call", "name": f"f{t}"})

    def look(self, n, all_of_it=False):
        r = self.r
        names = sorted(x for x in self.known if kind(x) in "fwd")
        gone = [x for x in ("f3", "w1", "d2", "f99") if x not in self.known and x not in self.res]
        for x in (r.sample(names, len(names)) if all_of_it else [r.choice(names) for _ in range(n) if names]):
            k = kind(x)
            if k == "f":
                self.steps.append({"o": "call", "name": x})
            elif k == "w" and r.random() < 0.3:
                self.steps.append({"o": "poke", "name": x, "w": r.randrange(3), "n": r.randrange(900)})
            else:
                self.steps.append({"o": "peek", "name": x, "w": r.randrange(3)})
        if gone and not self.elf and r.random() < 0.3:
            self.steps.append({"o": r.choice(["call", "peek"]), "name": r.choice(gone), "w": 0})

    def load(self, n):
        r = self.r
        objs = [{"labels": [], "items": []} for _ in range(n)]
        items = []
        taken = set(self.known)
        for k in range(n):
            for _ in range(r.choice([1, 2, 3, 5, 9])):
                c = r.choice("ffffwwdppq")
                q = r.random()
                rank = r.randrange(24)
                mine = {i["name"] for i in items if i["o"] == k}
                if q < 0.2:
                    name, g = "", False
                else:
                    name, g = f"{c}{rank}", q < 0.75
                    if name in mine or (g and name in taken and not (self.risk and r.random() < 0.05)):
                        continue
                    if g:
                        taken.add(name)
                items.append({"o": k, "c": c, "rank": rank, "name": name, "g": g})
        glob = {i["name"]: k for k, i in enumerate(items) if i["g"]}
        # data first, then what points at it, then functions from those of low rank up
        order = sorted(range(len(items)), key=lambda k: ("wdqfp".index(items[k]["c"]) if items[k]["c"] in "wdq" else 9, items[k]["rank"], items[k]["c"] == "p"))
        for k in order:
            it = items[k]
            it["cost"] = 1
            o = objs[it["o"]]
            it["body"] = self.body(it, items, glob)
        for k in r.sample(range(len(items)), len(items)):
            it = items[k]
            o = objs[it["o"]]
            it["at"] = self.label(o, ("own", k), it["name"])
        for k in r.sample(range(len(items)), len(items)):
            it = items[k]
            o = objs[it["o"]]
            body = []
            for x in it["body"]:
                t = x.pop("t", None)
                if t is None:
                    l = 0
                elif isinstance(t, int):
                    same = items[t]["o"] == it["o"]
                    l = items[t]["at"] if same else self.label(o, items[t]["name"], items[t]["name"])
                else:
                    l = self.label(o, t, t)
                body.append({"l": l, "n": x.get("n", 0), "w": x.get("w", 0), **({"o": x["o"]} if "o" in x else {})})
            f = it["c"] == "f"
            sec = "text" if f else "bss" if it["c"] == "w" and all(x == {"l": 0, "n": 0, "w": 0} for x in body) else "data" if it["c"] == "w" else r.choice(["data", "rodata", "rodata"])
            pad = r.choice([0, 0, 0, 1, 5, 16, 40]) if not self.big or r.random() < 0.7 else r.choice([120, 130, 1000, 2040, 4080, 5000, 9000])
            o["items"].append({"l": it["at"], "sec": sec, "g": it["g"], "pad": pad, "al": 16 if it["c"] == "d" else 1, "ops": body if f else [], "words": [] if f else body})
        for o in objs:
            o.pop("of", None)
        self.steps.append({"o": "objs", "objs": [o for o in objs]})
        for i in items:
            if i["g"]:
                self.known[i["name"]] = i["cost"]

    def label(self, o, key, name):
        of = o.setdefault("of", {})
        if key not in of:
            o["labels"].append(name)
            of[key] = len(o["labels"])
        return of[key]

    def refs(self, it, items, glob, ks, below=99):
        """What an item may mention: definitions of its object, exported ones of the others, known names."""
        r = self.r
        mine = {i["name"] for i in items if i["o"] == it["o"] and i["name"]}
        out = []
        for k, i in enumerate(items):
            if i["c"] in ks and i["rank"] < below and "body" in i and (i["o"] == it["o"] or (i["g"] and i["name"] not in mine and glob[i["name"]] == k)):
                out.append((k, i["cost"]))
        for x in list(self.known) + list(self.res):
            if x == "zz" or x in mine or x in glob or x in FAR or kind(x) not in ks:
                continue
            if x[0] == "x" or int(x[1:]) < below:
                out.append((x, self.known.get(x, 1)))
        return out

    def far(self, ks): return [x for x in sorted(FAR) if kind(x) in ks and (x in self.known or x in self.res)]

    def body(self, it, items, glob):
        r = self.r
        if it["c"] in "wd":
            zero = it["c"] == "w" and r.random() < 0.5
            return [{"n": 0 if zero else r.randrange(1000)} for _ in range(3)]
        if it["c"] == "q":
            xs = self.refs(it, items, glob, "wd") + [(x, 1) for x in self.far("d")]
            if not xs:
                it["dead"] = True
                return [{"n": 0}, {"n": 0}]
            return [{"t": r.choice(xs)[0], "w": r.randrange(3)} for _ in range(2)]
        if it["c"] == "p":
            xs = [x for x in self.refs(it, items, glob, "f", it["rank"] + 1) if x[1] < 100] + [(x, 1) for x in self.far("f")]
            if not xs:
                it["dead"] = True
                return [{"n": 0}, {"n": 0}]
            l = [r.choice(xs) for _ in range(2)]
            it["cost"] = max(c for _, c in l)
            return [{"t": t} for t, _ in l]
        out = []

        def add(o, t, cost=0, **kw):
            out.append({"o": o, "t": t, **kw})
            it["cost"] += cost
        for _ in range(r.choice([1, 2, 3, 5])):
            q = r.random()
            fs = [x for x in self.refs(it, items, glob, "f", it["rank"]) if it["cost"] + x[1] < 250]
            ps = [x for x in self.refs(it, items, glob, "p", it["rank"]) if it["cost"] + x[1] < 250 and not self.dead(x[0], items)]
            ds = self.refs(it, items, glob, "wd")
            ws = self.refs(it, items, glob, "w")
            qs = [x for x in self.refs(it, items, glob, "q") if not self.dead(x[0], items)]
            if q < 0.15:
                out.append({"o": r.choice(["const", "loop"]), "n": r.randint(1, 60), "w": r.randrange(2)})
            elif q < 0.22:
                out.append({"o": "skip", "n": r.choice([0, 5, 90, 120, 200, 700]), "w": r.randrange(5)})
            elif q < 0.45 and fs:
                t, c = r.choice(fs)
                if self.named(t, items):
                    add(r.choice(CALL + CALLAT), t, c)
                else:
                    add(r.choice(CALL), t, c)
            elif q < 0.53 and ps:
                t, c = r.choice(ps)
                add(r.choice(["callw", "callwat"]) if self.named(t, items) else "callw", t, c, w=r.randrange(2))
            elif q < 0.7 and ds:
                t, _ = r.choice(ds)
                o = r.choice(["load", "loadx", "loadlea", "loadadd", "loadat"])
                if (items[t]["c"] if isinstance(t, int) else t[0]) == "d" and r.random() < 0.2:
                    o = "mod"
                if o == "loadat" and not self.named(t, items):
                    o = "loadadd"
                add(o, t, w=0 if o in ("load", "loadx") else r.randrange(3))
            elif q < 0.78 and qs:
                add("loadw", r.choice(qs)[0], w=r.randrange(2))
            elif q < 0.93 and ws:
                t, _ = r.choice(ws)
                o = r.choice(["store", "storer", "storex", "storelea", "storeat"])
                if o == "storeat" and not self.named(t, items):
                    o = "store"
                add(o, t, w=r.randrange(3) if o in ("storelea", "storeat") else 0, n=r.randrange(1000))
            elif q < 0.97:
                xs = self.far("fd")
                if xs:
                    t = r.choice(xs)
                    add(r.choice(CALLAT) if kind(t) == "f" else "loadat", t)
        if r.random() < 0.2:
            fs = [x for x in self.refs(it, items, glob, "f", it["rank"]) if it["cost"] + x[1] < 250]
            if fs:
                t, c = r.choice(fs)
                o = r.choice(["tail", "tailat", "tailif"] + ["tailshort"] * (r.random() < 0.3))
                add("tail" if o == "tailat" and not self.named(t, items) else o, t, c)
        if self.risk and r.random() < 0.05:
            q = r.random()
            un = [x for x in ("f50", "x1", "x3", "x6") if x not in self.known and x not in self.res]
            fs = self.far("fd")
            nf = [k for k, i in enumerate(items) if i["c"] == "f" and i["o"] == it["o"] and not i["name"] and "body" in i and i["rank"] < it["rank"] and i["cost"] < 50]
            if q < 0.4 and un:
                add(r.choice(["call", "callat", "load", "loadat"]), r.choice(un))
            elif q < 0.8 and fs:
                t = r.choice(fs)
                add(r.choice(CALL if kind(t) == "f" else ["load", "loadlea"]), t)
            elif nf and not self.elf:
                add("callat", r.choice(nf))
            if out and out[-2:-1] and out[-2]["o"].startswith("tail"):
                out[-1], out[-2] = out[-2], out[-1]
        return out

    def dead(self, t, items):
        return (isinstance(t, int) and items[t].get("dead")) or t in self.deads()

    def deads(self):
        return {o["labels"][i["l"] - 1] for s in self.steps if s["o"] == "objs" for o in s["objs"] for i in o["items"] if i["g"] and i["words"] and len(i["words"]) == 2 and all(x["l"] == 0 for x in i["words"])}

    @staticmethod
    def named(t, items): return not isinstance(t, int) or items[t]["name"] != ""


MAIN = """#include <stdio.h>
%s
int main(void) {
%s
return 0;
}
"""


def run_elf(c, h, dirs):
    """Links the objects with a program that follows the steps."""
    d = dirs[h.id]
    decl, body, seen = [], [], {}
    for s in h.steps:
        if s["o"] == "objs":
            continue
        n = s["name"]
        f = kind(n) == "f"
        if s["o"] == "reg":
            vals = {1: 1001, 2: 1002, 3: 1003, 4: 1004}
            decl.append(f"long {n}(void) {{ return {vals[s['ext']]}; }}" if s["ext"] <= 4 else
                        f"long {n}[3] = {{{', '.join(str((2001 if s['ext'] == 5 else 2011) + j) for j in range(3))}}};")
            seen[n] = 1
            continue
        if n not in seen:
            decl.append(f"extern long {n}(void);" if f else f"extern volatile long {n}[3];")
            seen[n] = 1
        if s["o"] == "call":
            body.append(f'printf("%ld\\n", {n}());')
        elif s["o"] == "peek":
            body.append(f'printf("%ld\\n", {n}[{s["w"]}]);')
        else:
            body.append(f'{n}[{s["w"]}] = {s["n"]}; printf("ok\\n");')
        body.append("fflush(stdout);")
    open(f"{d}/main.c", "w").write(MAIN % ("\n".join(decl), "\n".join(body)))
    objs = next(s["objs"] for s in h.steps if s["o"] == "objs")
    r = sh(["gcc", "-O0", "-no-pie", "-o", f"{d}/a.out", f"{d}/main.c"] + [f"{d}/o{k}.o" for k in range(len(objs))], cwd=d)
    if r.returncode:
        m = re.search(r"undefined reference to `(\w+)'", r.stdout)
        if m:
            return "undefined", m.group(1), []
        m = re.search(r"multiple definition of `(\w+)'", r.stdout)
        if m:
            return "duplicate", m.group(1), []
        if "truncated to fit" in r.stdout:
            return "range", "", []
        return "error", r.stdout[-600:], []
    try:
        p = subprocess.run([f"{d}/a.out"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "crash", "timeout", []
    return ("ok", "", p.stdout.split()) if p.returncode == 0 else ("crash", str(p.returncode), p.stdout.split())


def work(c):
    c.build(llrl0=False)
    for rnd in range(c.pick(1, 20)):
        jit = [History(c.rng, f"j{rnd}_{k}", False) for k in range(1500)]
        elf = [History(c.rng, f"e{rnd}_{k}", True) for k in range(c.pick(250, 500))]
        got = c.harness("jit", [{"id": h.id, "steps": h.steps, "res": h.res} for h in jit], shards=64, timeout=40)
        dirs = {}
        for h in elf:
            dirs[h.id] = os.path.join(c.work, h.id)
            os.makedirs(dirs[h.id])
        made = c.harness("elf", [{"id": h.id, "dir": dirs[h.id], "objs": next(s["objs"] for s in h.steps if s["o"] == "objs")} for h in elf])
        recs, byid = [], {}
        for h in jit:
            g = got[h.id]
            if "out" not in g:
                c.violation(f"the program dies while loading or running objects ({g.get('crash') or g.get('panic')}): {json.dumps(h.steps)[:1200]}", {"steps": h.steps, "res": h.res, "got": g})
                continue
            recs.append({"id": h.id, "elf": False, "res": h.res, "steps": h.steps, "out": g["out"]})
            byid[h.id] = h
        ok = lambda r, s="", v=0: {"r": r, "s": s, "v": v}
        linked = dict(zip([h.id for h in elf], pmap(lambda h: run_elf(c, h, dirs) if made[h.id].get("r") == "ok" else None, elf)))
        for h in elf:
            m = made[h.id]
            if "r" not in m:
                c.violation(f"no object files are written ({m}): {json.dumps(h.steps)[:1200]}", {"steps": h.steps, "got": m})
                continue
            out = [ok("ok") for s in h.steps if s["o"] == "reg"]
            if m["r"] != "ok":
                out.append(ok(m["r"], m["s"]))
            else:
                r, s, vals = linked[h.id]
                if r == "crash":
                    c.violation(f"linked objects: the program dies with {s} after answers {vals[-5:]}: {json.dumps(h.steps)[:1200]}", {"steps": h.steps})
                    continue
                out.append(ok(r, s))
                out += [ok("ok") if v == "ok" else ok("v", "", int(v)) for v in vals]
            recs.append({"id": h.id, "elf": True, "res": {"zz": 1}, "steps": h.steps, "out": out})
            byid[h.id] = h
        for d in dirs.values():
            shutil.rmtree(d, ignore_errors=True)
        res = c.tlc_batch("Link", recs)
        for r in recs:
            v = res[r["id"]]
            name = "ELF" if r["elf"] else "JIT"
            if v["bad"]:
                n = v["n"]
                c.violation(f"{name} {r['id']}: step {n} {json.dumps(r['steps'][n])[:700]} answers {r['out'][n]}, which the specification forbids", {"step": n, **r})
                continue
            c.validated()
            last = r["out"][-1]["r"]
            c.part(f"{name} histories", 1)
            c.part(f"{name} answers", len(r["out"]))
            for a in r["out"]:
                if a["r"] not in ("ok", "v", "none"):
                    c.part(f"{name} {a['r']}", 1)
            c.sample(f"{name}: {len(r['steps'])} steps, {sum(len(o['items']) for s in r['steps'] if s['o'] == 'objs' for o in s['objs'])} definitions, last {r['out'][-1]}")
        if c.viol:
            break
    c.assumptions += ["the memory the kernel gives for MAP_32BIT is out of reach of 32-bit offsets from the program itself",
                      "gcc's linker links ELF objects as the psABI says", "a label without a name is never used through the table of addresses of an ELF object"]


main("P19", work)
