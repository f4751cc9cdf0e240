"""P13: reading and printing against Reader.tla."""
import glob, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sexp import *

WORDS = ["a", "foo", "x?", "y!", "set!", "...", "..", ".", "?", "!", "??", "?!", "+", "-", "+5", "-5", "-0", "+0", "00012", "0", "1.5", "-1.5e3", "1e5", "1e", "e1", ".5", "5.", "+.5e-2", "1.2.3",
         "-.5", "-.", "+-1", "1-", "--1", "inf", "-inf", "nan", "NaN", "Infinity", "infinit", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
         "9223372036854775808", "0000000000000000000000000000001", "1e400", "-1e-400", "0x10", "1_000", "a.b", "a:b", "|x|", "<=>", "%", "&", "*", "^", "_", "$x", "/", "A-Z", "1.0", "100000000000000000000.0",
         "123456789.123456789", "0.1", "5e-324", "1e22", "1e+7"]
MARKS = ["(", ")", "[", "]", "{", "}", "'", "`", ",", ",@", "@", "~", "\\", "#t", "#f", "#", "#\\a", "#\\\\n", "#\\\\x", "#\\", "#\\(", "#\\\\", "#\\ ", "#\\\n", "#\\λ", "#x", "\"\"", "\"a b\"",
         "\"\\n\\t\\r\\\\\\\"\"", "\"\\x\"", "\"λ\nμ\"", "\"", "\"\\", "; c\n", ";", "λ", "日", "😀", "\x00", "\u00a0", "#true", "#\\ab", "#\\;", "#\\\""]
CHARS = list("()[]{}'`,@~\\#tf\"; \n\tab1.-+?!e") + ["λ", "\r", "\r\n"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def datum(self, depth):
        """A well-formed spelling."""
        r = self.r
        k = r.randrange(14) if depth > 0 else r.randrange(4)
        sp = lambda: r.choice([" ", " ", "  ", "\n", "\t", "\r\n", " ; )\n", ";\n", "\n; λ\n "])
        osp = lambda: r.choice(["", "", "", sp()])
        d = lambda: self.datum(depth - 1)
        ds = lambda n: sp().join(d() for _ in range(n))
        if k < 2:
            s = r.choice(WORDS)
            return s if s not in (".", "?", "!") else "x"
        if k == 2:
            return r.choice(["#t", "#f", "#\\a", "#\\\\n", "#\\(", "#\\λ", "#\\\\\\", "#\\ ", "#\\\""])
        if k == 3:
            return '"' + "".join(r.choice(["a", " ", "\\n", "\\\"", "\\\\", "λ", "\n", ";", "#\\\\", "("]) for _ in range(r.randrange(4))) + '"'
        o, c = r.choice([("(", ")"), ("[", "]")])
        if k < 7:
            return o + osp() + ds(r.randrange(4)) + osp() + c
        if k == 7:
            return o + osp() + ds(r.randrange(3)) + sp() + "." + sp() + d() + osp() + c
        if k == 8:
            return o + osp() + ds(r.randrange(3)) + sp() + "@" + osp() + ds(r.randrange(3)) + (sp() + "@" + d() if r.random() < 0.3 else "") + (sp() + ". " + d() if r.random() < 0.2 else "") + osp() + c
        if k == 9:
            return d() + osp() + "{" + osp() + ds(r.randrange(3)) + osp() + "}"
        if k == 10:
            x = d()
            return (x if x[-1] in ")]}\"" else x + " ") + osp() + r.choice("?!") + " "
        return r.choice(["'", "`", ", ", ",@", "~", "\\"]) + osp() + d()

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            s = " ".join(self.datum(r.randrange(1, 6)) for _ in range(r.choice([1, 1, 2, 3])))
        elif k < 0.6:
            s = "".join(r.choice(WORDS if r.random() < 0.4 else MARKS) + r.choice(["", " ", " ", "\n"]) for _ in range(r.randrange(0, 14)))
        elif k < 0.7:
            s = "".join(r.choice(CHARS) for _ in range(r.randrange(0, 16)))
        elif k < 0.8:
            f = self.corpus[r.randrange(len(self.corpus))]
            j = r.randrange(len(f))
            j = f.rfind("\n(", 0, j) + 1
            s = f[j:j + r.choice([60, 150, 400])]
        else:
            s = " ".join(self.datum(r.randrange(1, 5)) for _ in range(r.choice([1, 2])))
            for _ in range(r.randrange(1, 4)):
                j = r.randrange(len(s) + 1)
                w = r.randrange(3)
                s = s[:j] + s[j + 1:] if w == 0 else s[:j] + r.choice(MARKS + CHARS) + s[j + (w == 2):]
        return s[:600]


def bits(v):
    return f"{struct.unpack('<Q', struct.pack('<d', v))[0]:016x}"


def conv(x, at):
    """The model's tree in the harness's terms."""
    k = x["k"]
    s = lambda: "".join(map(chr, x["v"]))
    if k == "name":
        o = {"k": "sym", "s": x["s"]}
    elif k == "symbol":
        o = {"k": "sym", "s": s()}
    elif k == "string":
        o = {"k": "str", "s": s()}
    elif k == "char":
        o = {"k": "chr", "s": s()}
    elif k == "unsigned":
        o = {"k": "atom", "t": "u" + s()}
    elif k == "signed":
        o = {"k": "atom", "t": "s" + str(-int(s()))}
    elif k == "float":
        v = float(s())
        o = {"k": "atom", "t": "f" + ("nan" if v != v else bits(v))}
    elif k == "bool":
        o = {"k": "bool", "b": x["v"]}
    else:
        o = {"k": k, "l": [conv(y, at) for y in x["l"]]}
        if k == "dot":
            o["t"] = conv(x["t"], at)
    o["at"] = [at[x["a"]], at[x["b"]]] if x["a"] < x["b"] else None      # None stands for no text at all
    return o


def norm(g, m=None):
    """The harness's tree, without what the model leaves open."""
    o = dict(g)
    if m is not None and m["at"] is None:
        o["at"] = None
    if o["k"] == "atom" and o["t"][0] == "f" and float_nan(o["t"]):
        o["t"] = "fnan"
    if "l" in o:
        ml = m["l"] if m is not None and m["k"] == o["k"] and len(m["l"]) == len(o["l"]) else [None] * len(o["l"])
        o["l"] = [norm(y, z) for y, z in zip(o["l"], ml)]
        if o["k"] == "dot":
            o["t"] = norm(o["t"], m["t"] if m is not None and m["k"] == "dot" else None)
    return o


def float_nan(t):
    v = struct.unpack("<d", struct.pack("<Q", int(t[1:], 16)))[0]
    return v != v


def bare(o):
    return {k: [bare(y) for y in v] if k == "l" else bare(v) if isinstance(v, dict) else v for k, v in o.items() if k != "at"}


FIXED = ["", " ", ";", "(a @)", "(a . )", "(. a)", "(. (a b))", "( . 'a)", "(a . b c)", "(a @ b . c)", "(a . b @ c)", "a ? !", "(f)??", "(f)? ?", "'a?", "'(f)?", "'a {b}", "{a}", "x {", "x {}", "x {a} {b}", ")", "a ) b",
         "(a #\\\\x b) c", "(a \"\\x b) c", "(a λ b) c", "λ ? x", "λ {a} b", "(() [] . ())", "[)", "(]", "(a . b . c)", "(a @@ b)", "'", "(')", "',@~\\`x", "#\\", "#\\\\", "\"", "a@b", "a'b", "a#t", "#tx", "#t#f", "1\"2\"3",
         "(a;b\n)", "a\r\nb", "?", "! x", "(a ?)", "( ? )", "a{b}{c}?!", "a {b}! {c}?", "(?)", "(a . ?)", "(a . λ) b", "'λ b", "(try? (try? (f))) (annotate 'a b) (try! ',x)"]


def run(c):
    c.build()
    g = Gen(c.rng)
    g.corpus = [open(f).read() for f in sorted(glob.glob(f"{REPO}/std/*.llrl") + glob.glob(f"{REPO}/test-cases/*.llrl"))]
    texts = FIXED + [g.text() for _ in range(c.pick(5000, 50000))]
    fine = judge(c, [{"id": j, "text": t} for j, t in enumerate(texts)])
    printed(c, [t for _, ts, _ in fine for t in ts][:c.pick(1000, 6000)], [("chibi", False), ("llvm", True)])


def zero(o):
    """-0 and 0 are one number, and 0 is what it is printed as."""
    o = {**o, "l": [zero(y) for y in o["l"]]} if "l" in o else dict(o)
    if o["k"] == "dot":
        o["t"] = zero(o["t"])
    if o.get("t") == "s0":
        o["t"] = "u0"
    return o


def flat(o):
    """The compiler shows a floating point number of integral value without a point: a known finding."""
    o = {**o, "l": [flat(y) for y in o["l"]]} if "l" in o else dict(o)
    if o["k"] == "dot":
        o["t"] = flat(o["t"])
    if o["k"] == "atom" and o["t"][0] == "f" and o["t"] != "fnan":
        v = struct.unpack("<d", struct.pack("<Q", int(o["t"][1:], 16)))[0]
        if v - v == 0 and v == int(v):
            o["t"] = "big" if abs(v) >= 2 ** 63 else ("u" if v >= 0 else "s") + str(int(v))
    return o


def judge(c, recs):
    got = c.harness("read", [{"id": r["id"], "text": r["text"]} for r in recs])
    fine = []
    for k in range(0, len(recs), 5000):
        part = recs[k:k + 5000]
        res = c.tlc_batch("Reader", [{"id": r["id"], "t": [ord(x) for x in r["text"]]} for r in part], timeout=900)
        for r in part:
            m, h = res[r["id"]], got[r["id"]]
            c.validated()
            if "ok" not in h:
                c.violation(f"reading {r['text']!r}: {h}", {"text": r["text"], "got": h})
                continue
            want = [conv(x, m["at"]) for x in m["x"]]
            is_ = [norm(x, w) for x, w in zip(h["x"], want)] + h["x"][len(want):]
            errs = [[m["at"][a], m["at"][b]] for a, b in m["errs"]]
            c.part("well_formed" if m["ok"] else "malformed", 1)
            if h["ok"] != m["ok"]:
                c.violation(f"{r['text']!r} is {'accepted as ' + h['shown'] if h['ok'] else 'refused'}", {"text": r["text"], "got": h, "model": m})
            elif is_ != want:
                if [bare(x) for x in is_] == [bare(x) for x in want]:
                    what = f"positions in {r['text']!r}: {is_} instead of {want}"
                else:
                    what = f"{r['text']!r} is read as {h['shown']!r} ({[bare(x) for x in is_]}) instead of {[bare(x) for x in want]}"
                c.violation(what, {"text": r["text"], "got": h, "model": m})
            elif h["errs"] != errs:
                c.violation(f"errors in {r['text']!r} at {h['errs']} instead of {errs}", {"text": r["text"], "got": h, "model": m})
            else:
                c.sample(r["text"][:120])
                if m["ok"] and m["x"]:
                    fine.append((r, [bare(x) for x in is_], h["shown"]))
    # printed and read again
    again = c.harness("read", [{"id": j, "text": s} for j, (_, _, s) in enumerate(fine)])
    for j, (r, t, s) in enumerate(fine):
        h = again[j]
        c.part("reread", 1)
        if not h.get("ok") or [bare(norm(x)) for x in h["x"]] != [zero(x) for x in t]:
            u = [zero(flat(x)) for x in t]
            known = u != [zero(x) for x in t] and ("'big'" in str(u) or h.get("ok") and [zero(bare(norm(x))) for x in h["x"]] == u)
            if known:
                c.part("shown_as_integers", 1)
                c.violation("", {"key": "integral floating point literals displayed by the compiler"})
                continue
            c.violation(f"{r['text']!r} is printed as {s!r}, which reads as {[bare(norm(x)) for x in h['x']] if h.get('ok') else h}", {"text": r["text"], "shown": s})
    return fine


def same(w, g):
    """Equal up to the digits a floating point number is shown with."""
    if w["k"] == "atom" and g["k"] == "atom" and w["t"][0] == "f":
        val = lambda t: float("nan") if t == "fnan" else struct.unpack("<d", struct.pack("<Q", int(t[1:], 16)))[0] if t[0] == "f" else float(t[1:])
        a, b = val(w["t"]), val(g["t"])
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * abs(a)
    if "l" in w and w["k"] == g["k"]:
        return len(w["l"]) == len(g["l"]) and all(map(same, w["l"], g["l"])) and (w["k"] != "dot" or same(w["t"], g["t"]))
    return w == g


def plain(t):
    """Data that a program can quote and print in full."""
    if t["k"] == "atom" and t["t"][0] == "f" or t["k"] == "sym" and t["s"][0] == "$":
        return False
    if t["k"] == "list" and len(t["l"]) == 2 and t["l"][0] == sym("capture"):
        return False
    return all(plain(x) for x in t.get("l", [])) and (t["k"] != "dot" or plain(t["t"]))


def capture_inside(t):
    return t == sym("capture") or any(capture_inside(x) for x in t.get("l", [])) or t["k"] == "dot" and capture_inside(t["t"])


def printed(c, trees, configs, per=120):
    """Programs print quoted data; what they print denotes the data."""
    trees = [zero(t) for t in trees if plain(t) and not capture_inside(t)]
    jobs = [(trees[j:j + per], cfg) for j in range(0, len(trees), per) for cfg in configs]

    def go(job):
        ts, (b, o) = job
        return run_llrl({"m": "(import \"std/s-display\" _)\n" + "".join(f"(ignore (println! '{text(t)}))\n" for t in ts)}, "m", backend=b, opt=o, work=c.work)

    outs = pmap(go, jobs)
    reread = c.harness("read", [{"id": j, "text": r["out"]} for j, r in enumerate(outs)])
    for j, ((ts, cfg), r) in enumerate(zip(jobs, outs)):
        if r["stage"] != "run" or r["rc"] != 0:
            c.violation(f"a program printing quoted data does not run on {cfg}: {r['stage']} rc={r['rc']} {r['msg'][-800:]}", {"trees": ts})
            continue
        h = reread[j]
        got = [bare(norm(x)) for x in h.get("x", [])]
        c.validated(len(ts))
        c.part("printed_by_programs", len(ts))
        if got != ts:
            k = next((k for k in range(min(len(got), len(ts))) if got[k] != ts[k]), 0)
            c.violation(f"on {cfg} the datum {text(ts[k])} is printed so that it reads as {text(got[k]) if k < len(got) else h}", {"tree": ts[k], "out": r["out"]})


if __name__ == "__main__":
    main("P13", run)
