------------------------------ MODULE LlrlCore ------------------------------
(* The language's evaluation rules as an abstract machine: a control        *)
(* (expression to evaluate or value just produced), an environment, a stack *)
(* of continuation frames, a store of mutable references and the output.    *)
(* Arguments are evaluated left to right, then the callee; `let` evaluates  *)
(* its initialisers in order, seeing the functions it defines but not the   *)
(* variables; a parameterless definition is evaluated at each use; matches  *)
(* take the first fitting clause; `return` leaves the innermost function.   *)
(* The application of a transparent function means its body, with each use   *)
(* of a parameter meaning the argument, in the environment it was written in *)
(* (by name); transparent functions used as values are functions like others.*)
(*                                                                           *)
(* A record of the batch: [id, nodes (sequence of expressions, children by   *)
(* index), funs (name -> [params, body]), tops (sequence of node indices)].  *)
EXTENDS Sequences, FiniteSets, TLC, Json, IOUtils, I32

Batch == ndJsonDeserialize(IOEnv.BATCH)
MaxSteps == 6000

VARIABLES pid,    \* which program
          top,    \* index of the top-level expression being evaluated
          mode,   \* "eval", "ret" (value in val), "done"
          ctl,    \* node to evaluate
          val,    \* value produced
          env,    \* name -> value
          kont,   \* frames, innermost first
          store,  \* contents of references
          out,    \* printed lines
          step
vars == <<pid, top, mode, ctl, val, env, kont, store, out, step>>
View == <<pid, step>>

Prog == Batch[pid]
Node(n) == Prog.nodes[n]

Unit == [t |-> "con", c |-> "unit", vs |-> <<>>]
BoolV(b) == [t |-> "con", c |-> IF b THEN "#t" ELSE "#f", vs |-> <<>>]
IntV(i) == [t |-> "int", i |-> i]
StrV(s) == [t |-> "str", s |-> s]
IsTrue(v) == v.c = "#t"
Empty == [x \in {} |-> Unit]

(* ------------------------------------------------------------- matching *)
(* result: <<fits, bindings>> *)
RECURSIVE MatchP(_, _)
RECURSIVE MatchAll(_, _, _)
MatchAll(ps, vs, i) ==
  IF i > Len(ps) THEN <<TRUE, Empty>>
  ELSE LET m == MatchP(ps[i], vs[i]) IN
       IF ~m[1] THEN <<FALSE, Empty>>
       ELSE LET r == MatchAll(ps, vs, i + 1) IN
            IF ~r[1] THEN r ELSE <<TRUE, m[2] @@ r[2]>>
MatchP(p, v) ==
  CASE p.k = "_"   -> <<TRUE, Empty>>
    [] p.k = "var" -> LET m == MatchP(p.p, v) IN
                      IF m[1] THEN <<TRUE, (p.x :> v) @@ m[2]>> ELSE m
    [] p.k = "int" -> <<v.i = p.i, Empty>>
    [] p.k = "str" -> <<v.s = p.s, Empty>>
    [] p.k = "con" -> IF v.c = p.c THEN MatchAll(p.ps, v.vs, 1) ELSE <<FALSE, Empty>>

RECURSIVE FirstFit(_, _, _)
FirstFit(cl, v, i) == LET m == MatchP(cl[i].p, v) IN IF m[1] THEN <<i, m[2]>> ELSE FirstFit(cl, v, i + 1)

(* ------------------------------------------------------------- primitives *)
Show(v) == CASE v.t = "int" -> ToString(v.i)
             [] v.t = "str" -> v.s
             [] OTHER -> v.c
RECURSIVE Concat(_)
Concat(vs) == IF vs = <<>> THEN "" ELSE Show(Head(vs)) \o Concat(Tail(vs))

Prim(op, a) ==
  CASE op = "+" -> IntV(Add32(a[1].i, a[2].i))
    [] op = "-" -> IntV(Sub32(a[1].i, a[2].i))
    [] op = "*" -> IntV(Mul32(a[1].i, a[2].i))
    [] op = "/" -> IntV(Quo32(a[1].i, a[2].i))
    [] op = "%" -> IntV(Rem32(a[1].i, a[2].i))
    [] op = "<" -> BoolV(a[1].i < a[2].i)
    [] op = "<=" -> BoolV(a[1].i <= a[2].i)
    [] op = ">" -> BoolV(a[1].i > a[2].i)
    [] op = ">=" -> BoolV(a[1].i >= a[2].i)
    [] op = "=" -> BoolV(a[1].i = a[2].i)
    [] op = "!=" -> BoolV(a[1].i # a[2].i)
    [] op = "not" -> BoolV(~IsTrue(a[1]))
    [] op = "string=" -> BoolV(a[1].s = a[2].s)
    [] op = "string" -> StrV(Concat(a))
    [] op = "refeq" -> BoolV(a[1].l = a[2].l)

(* ------------------------------------------------------------- functions *)
(* closure: body, params, env of definition, and the `let` whose functions it can call *)
Clo(ps, b, e, g) == [t |-> "clo", ps |-> ps, b |-> b, env |-> e, g |-> g]
FunsOf(n, e) == LET fs == Node(n).funs IN
  [f \in {fs[j].f : j \in 1..Len(fs)} |->
     LET d == fs[CHOOSE j \in 1..Len(fs) : fs[j].f = f] IN Clo(d.ps, d.b, e, n)]
(* the environment a closure's body runs in, before its parameters *)
BodyEnv(c) == IF c.g = 0 THEN c.env ELSE FunsOf(c.g, c.env) @@ c.env
BindAll(ps, vs, e) == [x \in {ps[j] : j \in 1..Len(ps)} |-> vs[CHOOSE j \in 1..Len(ps) : ps[j] = x]] @@ e

Frame(k, n, i, vs, e) == [k |-> k, n |-> n, i |-> i, vs |-> vs, e |-> e]
Push(f) == kont' = <<f>> \o kont

(* ------------------------------------------------------------- transitions *)
Init == /\ pid \in 1..Len(Batch)
        /\ top = 1 /\ mode = "next" /\ ctl = 0 /\ val = Unit
        /\ env = Empty /\ kont = <<>> /\ store = <<>> /\ out = <<>> /\ step = 0

Eval(n, e) == mode' = "eval" /\ ctl' = n /\ env' = e /\ UNCHANGED val
Give(v) == mode' = "ret" /\ val' = v /\ UNCHANGED <<ctl, env>>
Same == UNCHANGED <<pid, top>> /\ step' = step + 1
Pure == UNCHANGED <<store, out>> /\ Same

NextTop == /\ mode = "next"
           /\ IF top > Len(Prog.tops) THEN mode' = "done" /\ UNCHANGED <<ctl, env, val>>
              ELSE Eval(Prog.tops[top], Empty)
           /\ UNCHANGED kont /\ Pure

EvalStep ==
  /\ mode = "eval"
  /\ LET x == Node(ctl) IN
     CASE x.k = "int"  -> Give(IntV(x.i)) /\ UNCHANGED kont /\ Pure
       [] x.k = "str"  -> Give(StrV(x.s)) /\ UNCHANGED kont /\ Pure
       [] x.k = "con0" -> Give([t |-> "con", c |-> x.c, vs |-> <<>>]) /\ UNCHANGED kont /\ Pure
       [] x.k = "ctor" -> Give([t |-> "ctor", c |-> x.c]) /\ UNCHANGED kont /\ Pure
       [] x.k = "var"  -> LET v == env[x.x] IN
            /\ IF v.t = "thunk" THEN Eval(v.n, v.env) ELSE Give(v)
            /\ UNCHANGED kont /\ Pure
       [] x.k = "tapp" -> LET f == Prog.funs[x.f] IN
            /\ Eval(f.b, BindAll(f.ps, [j \in 1..Len(f.ps) |-> [t |-> "thunk", n |-> x.es[j], env |-> env]], Empty))
            /\ Push(Frame("fun", 0, 0, <<>>, Empty)) /\ Pure
       [] x.k = "fun"  -> Give(Clo(Prog.funs[x.f].ps, Prog.funs[x.f].b, Empty, 0)) /\ UNCHANGED kont /\ Pure
       [] x.k = "const" -> Eval(Prog.funs[x.f].b, Empty) /\ Push(Frame("fun", 0, 0, <<>>, Empty)) /\ Pure
       [] x.k = "let"  ->
            LET e1 == FunsOf(ctl, env) @@ env IN
            IF x.vars = <<>> THEN Eval(x.b, e1) /\ UNCHANGED kont /\ Pure
            ELSE Eval(x.vars[1].e, e1) /\ Push(Frame("let", ctl, 1, <<>>, e1)) /\ Pure
       [] x.k \in {"if", "match", "while", "return"} -> Eval(x.es[1], env) /\ Push(Frame(x.k, ctl, 1, <<>>, env)) /\ Pure
       [] x.k \in {"app", "con", "prim", "print", "ref", "get", "set", "begin"} ->
            IF x.es = <<>> THEN Give(Unit) /\ UNCHANGED kont /\ Pure
            ELSE Eval(x.es[1], env) /\ Push(Frame(x.k, ctl, 1, <<>>, env)) /\ Pure

RECURSIVE DropToFun(_)
DropToFun(k) == IF Head(k).k = "fun" THEN Tail(k) ELSE DropToFun(Tail(k))

RetStep ==
  /\ mode = "ret"
  /\ IF kont = <<>>
     THEN /\ mode' = "next" /\ top' = top + 1 /\ UNCHANGED <<pid, ctl, env, val, kont, store, out>> /\ step' = step + 1
     ELSE
     LET f == Head(kont)  rest == Tail(kont)  x == IF f.n = 0 THEN [k |-> "fun"] ELSE Node(f.n) IN
     CASE f.k = "fun" -> Give(val) /\ kont' = rest /\ Pure
       [] f.k = "let" ->
            LET vs == Append(f.vs, val) IN
            IF f.i < Len(x.vars)
            THEN Eval(x.vars[f.i + 1].e, f.e) /\ kont' = <<Frame("let", f.n, f.i + 1, vs, f.e)>> \o rest /\ Pure
            ELSE Eval(x.b, BindAll([j \in 1..Len(x.vars) |-> x.vars[j].x], vs, f.e)) /\ kont' = rest /\ Pure
       [] f.k = "if" -> Eval(IF IsTrue(val) THEN x.es[2] ELSE x.es[3], f.e) /\ kont' = rest /\ Pure
       [] f.k = "while" ->
            IF f.i = 1
            THEN IF IsTrue(val) THEN Eval(x.es[2], f.e) /\ kont' = <<Frame("while", f.n, 2, <<>>, f.e)>> \o rest /\ Pure
                 ELSE Give(Unit) /\ kont' = rest /\ Pure
            ELSE Eval(x.es[1], f.e) /\ kont' = <<Frame("while", f.n, 1, <<>>, f.e)>> \o rest /\ Pure
       [] f.k = "match" ->
            LET m == FirstFit(x.cl, val, 1) IN
            Eval(x.cl[m[1]].b, m[2] @@ f.e) /\ kont' = rest /\ Pure
       [] f.k = "return" -> Give(val) /\ kont' = DropToFun(rest) /\ Pure
       [] OTHER ->
            LET vs == Append(f.vs, val) IN
            IF f.i < Len(x.es)
            THEN Eval(x.es[f.i + 1], f.e) /\ kont' = <<Frame(f.k, f.n, f.i + 1, vs, f.e)>> \o rest /\ Pure
            ELSE \* the frame is gone before the operation is performed
                 LET k0 == rest IN
                 CASE x.k = "app" /\ vs[Len(vs)].t = "clo" ->
                        LET c == vs[Len(vs)] IN
                        /\ Eval(c.b, BindAll(c.ps, SubSeq(vs, 1, Len(vs) - 1), BodyEnv(c)))
                        /\ kont' = <<Frame("fun", 0, 0, <<>>, Empty)>> \o k0 /\ Pure
                   [] x.k = "app" /\ vs[Len(vs)].t = "ctor" ->
                        Give([t |-> "con", c |-> vs[Len(vs)].c, vs |-> SubSeq(vs, 1, Len(vs) - 1)]) /\ kont' = k0 /\ Pure
                   [] x.k = "con"   -> Give([t |-> "con", c |-> x.c, vs |-> vs]) /\ kont' = k0 /\ Pure
                   [] x.k = "prim"  -> Give(Prim(x.op, vs)) /\ kont' = k0 /\ Pure
                   [] x.k = "begin" -> Give(val) /\ kont' = k0 /\ Pure
                   [] x.k = "print" -> Give(Unit) /\ out' = Append(out, Concat(vs)) /\ kont' = k0 /\ UNCHANGED store /\ Same
                   [] x.k = "ref"   -> Give([t |-> "ref", l |-> Len(store) + 1]) /\ store' = Append(store, vs[1])
                                       /\ kont' = k0 /\ UNCHANGED out /\ Same
                   [] x.k = "get"   -> Give(store[vs[1].l]) /\ kont' = k0 /\ Pure
                   [] x.k = "set"   -> Give(Unit) /\ store' = [store EXCEPT ![vs[x.at].l] = vs[3 - x.at]]
                                       /\ kont' = k0 /\ UNCHANGED out /\ Same

Finish == /\ mode = "done" \/ step >= MaxSteps
          /\ mode # "reported"
          /\ PrintT(ToJson([id |-> Prog.id, done |-> mode = "done", out |-> out, steps |-> step]))
          /\ mode' = "reported" /\ step' = step + 1
          /\ UNCHANGED <<pid, top, ctl, val, env, kont, store, out>>

Next == \/ step < MaxSteps /\ (NextTop \/ EvalStep \/ RetStep)
        \/ Finish
Spec == Init /\ [][Next]_vars

(* the machine never gets stuck: every value fits what consumes it *)
Live == mode = "reported" \/ ENABLED Next
(* references are only ever created, never lost; output only grows *)
RefsValid == \A l \in 1..Len(store) : store[l].t = "ref" => store[l].l \in 1..Len(store)
OutputGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out /\ Len(store') >= Len(store)]_vars
=============================================================================
