"""S-expression trees as the specifications see them, and their texts."""
ESC = {"\t": "\\t", "\r": "\\r", "\n": "\\n", '"': '\\"', "\\": "\\\\"}
QUOTES = {"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@", "load": "~", "capture": "\\"}


def sym(s): return {"k": "sym", "s": s}
def lst(*l): return {"k": "list", "l": list(l)}
def string(s): return {"k": "str", "s": s}
def boolean(b): return {"k": "bool", "b": b}
def num(v, sign=False): return {"k": "atom", "t": ("s" if v < 0 or sign else "u") + str(v)}


def text(t, rng=None):
    """A text denoting the tree; with rng, one of its spellings."""
    r = (lambda p: rng.random() < p) if rng else (lambda p: False)
    k = t["k"]
    if k == "sym":
        return t["s"]
    if k == "str":
        return '"' + "".join(ESC.get(c, c) if c in '"\\' or not r(0.3) else c for c in t["s"]) + '"'
    if k == "chr":
        return "#\\" + ESC.get(t["s"], t["s"])
    if k == "bool":
        return "#t" if t["b"] else "#f"
    if k == "atom":
        return t["t"][1:]
    sp = lambda: rng.choice([" ", " ", " ", "  ", "\n", "\t", " ; c )\n"]) if rng else " "
    if k == "list":
        l = t["l"]
        if len(l) == 2 and l[0]["k"] == "sym" and l[0]["s"] in QUOTES and r(0.7):
            return QUOTES[l[0]["s"]] + (" " if l[0]["s"] == "unquote" else "") + text(l[1], rng)
        if len(l) >= 2 and l[-1]["k"] == "list" and len(l[-1]["l"]) and r(0.3):
            inner = text(l[-1], rng)
            body = sp().join(text(x, rng) for x in l[:-1])
            if inner[0] in "([":
                return "(" + body + sp() + "@" + inner[1:-1] + ")" if not inner[1:-1].strip().startswith("@") else "(" + body + " " + inner + ")"
        o, c = ("[", "]") if r(0.3) else ("(", ")")
        return o + sp().join(text(x, rng) for x in l) + (sp() if r(0.1) else "") + c
    return "(" + sp().join(text(x, rng) for x in t["l"]) + sp() + "." + sp() + text(t["t"], rng) + ")"
