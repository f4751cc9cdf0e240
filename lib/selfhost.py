"""Parts of the compiler written in llrl, driven by programs of their own."""
import os
from vlib import *
from sexp import *

FRONT = '''(import "~/preprocess" _)
(import "~/sexp" _)
(import "~/sexp/parser" parser/_ [_.ParseError _.Error])
(import "~/sexp/lexer" lex)
(import "~/source-location" source-locator/temporary)
(export run)
(function (run id pre? input features) {(-> I32 Bool String (Array String) unit)}
  @let1 pp (preprocessor/new)
  (for (let f) features (preprocessor/enable-feature! f pp))
  (ignore (println! "\\n==" id " "))
  (match (|> input lex (parser/new (source-locator/temporary)) parser/parse-ss!)
    [(err (let e)) (ignore (println! "read"))]
    [(ok (let ss))
      (if pre?
        (match (preprocessor/run pp ss)
          [(err (let e)) (ignore (println! "err"))]
          [(ok (let ss)) (begin (ignore (println! "ok")) (ignore (println! ss)))])
        (begin (ignore (println! "ok")) (ignore (println! ss))))]))
'''


def literal(s):
    return text({"k": "str", "s": s})


def front(c, cases, per=100):
    """cases: (id, preprocess?, text, features). {id: (verdict, printed text)}"""
    d = os.path.join(c.work, "front")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(f"{REPO}/llrl1"):
        if not os.path.lexists(f"{d}/{f}"):
            os.symlink(f"{REPO}/llrl1/{f}", f"{d}/{f}")
    open(f"{d}/zfront.llrl", "w").write(FRONT)
    groups = [cases[j:j + per] for j in range(0, len(cases), per)]

    def go(j):
        src = '(import "~/zfront" run)\n' + "".join(
            f"(run {i} #{'t' if p else 'f'} {literal(t)} {'(array ' + ' '.join(map(literal, fs)) + ')' if fs else 'array/empty'})\n" for i, p, t, fs in groups[j])
        open(f"{d}/zcases{j}.llrl", "w").write(src)
        env = build_env()
        env["TMPDIR"] = c.work
        r = subprocess.run([LLRL0, "-b", "chibi", "-O", "-o", f"{d}/z{j}.out", f"zcases{j}"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if r.returncode:
            return {"error": r.stdout[-2000:]}
        try:
            x = subprocess.run([f"{d}/z{j}.out"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return {"error": "timed out"}
        o = {}
        for part in re.split(r"\n==(?=\d+ \n)", x.stdout.decode("utf-8", "surrogateescape"))[1:]:
            i, v, *rest = part.split("\n", 2)
            o[int(i)] = (v, (rest or [""])[0])
        if x.returncode:
            o["error"] = f"rc={x.returncode} {x.stderr.decode(errors='replace')[-1000:]}"
        return o

    res = {}
    for o in pmap(go, range(len(groups))):
        e = o.pop("error", None)
        if e:
            c.violation(f"the self-hosted reader or preprocessor fails: {e}", {"error": e})
        res.update(o)
    return res
