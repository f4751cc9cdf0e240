"""P01: compiled programs do what LlrlCore.tla says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from coregen import *
from corerun import *


RETURNS = "early return from a transparent function"


def transparent_return(c):
    """An early return in the body of a transparent function leaves that function."""
    p = Program("ret")
    p.transparent.add("rett")
    call = lambda f, *a: app(n("fun", f=f), *a)
    p.funs = [("rett", ["x"], begin(if_(prim(">", var("x"), lit(0)), n("return", es=[prim("+", var("x"), lit(1))]), UNIT), lit(5)), ty(("fn", (I,), I))),
              ("retf", ["y"], let([("a", n("tapp", f="rett", es=[var("y")]))], prim("string", string("s"), var("a"))), ty(("fn", (I,), S)))]
    p.tops = [print_(call("retf", lit(i))) for i in (0, 1)]
    want = "".join(expected(c, [p])[p.id]["out"])
    for cfg in CONFIGS[:1]:
        got = run_config(c, [p], cfg)[p.id]
        if got != ("ok", want):
            c.violation(f"{RETURNS}: expected {want!r}, got {got}", {"key": RETURNS, "source": p.source()})


def run(c):
    c.build(harness=False)
    progs = []
    for i in range(c.pick(240, 4000)):
        progs.append(Gen(c.rng, f"g{i}", f"g{i}", size=c.rng.choice([0.6, 1.0, 1.6, 2.5]), bare=c.rng.choice([0, 0, 0.4])).generate())
    check_programs(c, progs, "random", batch=20)
    transparent_return(c)
    c.assumptions = ["integer arithmetic stays within what I32.tla defines (no division by zero or of MIN by -1)",
                     "programs whose machine run exceeds MaxSteps are not compared"]


if __name__ == "__main__":
    main("P01", run)
