------------------------------ MODULE Classes ------------------------------
(* Which instances the constraints of a program resolve to, what its declarations lack, and what    *)
(* runs: a program is classes, and modules that define instances and functions and see some of the   *)
(* instances defined elsewhere.                                                                       *)
(*   classes : name -> [ps, sup : constraints, d : calls of its default method, x : constraints of     *)
(*             the type X of an argument that the default method has besides (or xp is FALSE)]          *)
(*   insts   : sequence of [n, m : module, ps, s : premises, h : head, b : calls of its method,        *)
(*             o : <<>> or <<calls of its own version of the default method>>]                         *)
(*   funs    : sequence of [n, m, ps, s : assumptions, inf : has no signature, b : calls]              *)
(*   mods    : sequence of [sees : instances (numbers), tops : calls]                                  *)
(* A call [k |-> "m", n : class, l : types] is of the method of a class, [k |-> "d", n, l] of its       *)
(* default method, [k |-> "f", n : number, l] of a function at these types; [k |-> "l", b, l] defines   *)
(* a local function that does the calls b, where L is the type of its argument, and calls it at each   *)
(* of the types l.  A method prints the name of its instance and then does its calls.                  *)
(* Overloading is resolved where the program text is, and runs by evidence: a function is given a      *)
(* dictionary for each of its assumptions.                                                             *)
EXTENDS Infer

(* ---- heads of instances ---- *)
Unifiable(h1, ps1, h2, ps2) ==
  LET n == Len(ps1)
      m1 == TLCEval([k \in DOMAIN ps1 |-> <<ps1[k], V(k)>>])
      m2 == TLCEval([k \in DOMAIN ps2 |-> <<ps2[k], V(n + k)>>])
  IN Solve(<<>>, TLCEval([k \in 1..(n + Len(ps2)) |-> None]),
           TLCEval([j \in DOMAIN h1.l |-> <<Replace(m1, h1.l[j]), Replace(m2, h2.l[j])>>])).ok
Overlap(w, i, j) == LET a == w.insts[i] b == w.insts[j] IN
                    i # j /\ a.h.c = b.h.c /\ Unifiable(a.h, a.ps, b.h, b.ps)

(* ---- evidence: [k |-> "p", i, path] an assumption, or one of its superclasses; [k |-> "i", i, a] an instance ---- *)
(* The superclasses of an assumption come with it.                                                     *)
RECURSIVE Given(_, _, _, _)
Given(w, c, i, path) ==
  LET k == w.classes[c.c] m == TLCEval([j \in DOMAIN k.ps |-> <<k.ps[j], c.l[j]>>])
  IN {[c |-> c, e |-> [k |-> "p", i |-> i, path |-> path]]}
     \cup UNION {Given(w, ReplaceC(m, k.sup[j]), i, Append(path, j)) : j \in DOMAIN k.sup}
Assumptions(w, cs) == TLCEval(UNION {Given(w, cs[i], i, <<>>) : i \in DOMAIN cs})

(* ok; e : the evidence; tc : the classes whose instances were searched; amb : several assumptions give  *)
(* the same constraint, and nothing says which is meant                                                *)
RECURSIVE Find(_, _, _, _, _), FindAll(_, _, _, _, _)
(* one after another, as far as they are found *)
FindAll(w, sees, given, cs, d) ==
  IF cs = <<>> THEN <<>>
  ELSE LET f == TLCEval(Find(w, sees, given, Head(cs), d)) IN
       <<f>> \o (IF f.ok THEN FindAll(w, sees, given, Tail(cs), d) ELSE <<>>)
Find(w, sees, given, c, d) ==
  IF d > Depth THEN [ok |-> FALSE, e |-> None, tc |-> {}, amb |-> FALSE]
  ELSE LET as == TLCEval({g.e : g \in {g \in given : g.c = c}}) IN
  IF as # {} THEN [ok |-> TRUE, e |-> CHOOSE e \in as : TRUE, tc |-> {}, amb |-> Cardinality(as) > 1]
  ELSE LET is == TLCEval({i \in sees : HeadMatch(w.insts[i], c).ok}) IN
       IF is = {} THEN [ok |-> FALSE, e |-> None, tc |-> {c.c}, amb |-> FALSE]
       ELSE LET i == CHOOSE i \in is : TRUE
                t == w.insts[i]
                r == TLCEval(HeadMatch(t, c).x)
                m == TLCEval([j \in DOMAIN t.ps |-> <<t.ps[j], r[t.ps[j]]>>])
                fs == TLCEval(FindAll(w, sees, given, [j \in DOMAIN t.s |-> ReplaceC(m, t.s[j])], d + 1))
            IN [ok |-> \A j \in DOMAIN fs : fs[j].ok,
                e |-> [k |-> "i", i |-> i, a |-> [j \in DOMAIN fs |-> fs[j].e]],
                tc |-> TLCEval({c.c} \cup UNION {fs[j].tc : j \in DOMAIN fs}),
                amb |-> \E j \in DOMAIN fs : fs[j].amb]

Sees(w, m) == TLCEval({w.mods[m].sees[k] : k \in DOMAIN w.mods[m].sees})
At(ps, l, c) == ReplaceC(TLCEval([j \in DOMAIN ps |-> <<ps[j], l[j]>>]), c)
(* a local function is what it does at each of its uses *)
RECURSIVE Plain(_)
Plain(calls) ==
  IF calls = <<>> THEN <<>>
  ELSE LET c == Head(calls)
           at(t) == [k \in DOMAIN c.b |-> [c.b[k] EXCEPT !.l = [j \in DOMAIN @ |-> Replace(<<<<"L", t>>>>, @[j])]]]
           RECURSIVE All_(_)
           All_(l) == IF l = <<>> THEN <<>> ELSE at(Head(l)) \o All_(Tail(l))
       IN (IF c.k = "l" THEN TLCEval(All_(c.l)) ELSE <<c>>) \o Plain(Tail(calls))
(* what a call needs; a function without a signature assumes what is needed of its parameters *)
RECURSIVE Needs(_, _), Assumes(_, _), Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Needs(w, call) == IF call.k = "m" THEN <<[c |-> call.n, l |-> call.l]>>
                  ELSE IF call.k = "d"
                  THEN LET k == w.classes[call.n]
                           n == Len(k.ps)
                       IN <<[c |-> call.n, l |-> SubSeq(call.l, 1, n)]>>
                          \o TLCEval([j \in DOMAIN k.x |-> At(Append(k.ps, "X"), call.l, k.x[j])])
                  ELSE LET s == TLCEval(Assumes(w, call.n)) IN TLCEval([k \in DOMAIN s |-> At(w.funs[call.n].ps, call.l, s[k])])
Assumes(w, i) == IF ~w.funs[i].inf THEN w.funs[i].s
                 ELSE LET b == Plain(w.funs[i].b)
                      IN SelectSeq(TLCEval(Concat([k \in DOMAIN b |-> Needs(w, b[k])])), LAMBDA c : GensC(c) # {})
(* what the bodies of default methods can use *)
Extra(w, i) == LET k == w.classes[w.insts[i].h.c] IN TLCEval([j \in DOMAIN k.x |-> At(k.ps, w.insts[i].h.l, k.x[j])])
Self(w, n) == <<[c |-> n, l |-> [j \in DOMAIN w.classes[n].ps |-> G(w.classes[n].ps[j])]]>> \o w.classes[n].x
Supers(w, i) == LET h == w.insts[i].h k == w.classes[h.c] IN [j \in DOMAIN k.sup |-> At(k.ps, h.l, k.sup[j])]

(* ---- what runs; a dictionary is [i : instance, a : the dictionaries of its premises] ---- *)
RECURSIVE Dict(_, _, _), Up(_, _, _), Run(_, _, _, _, _)
Dict(w, e, env) == IF e.k = "i" THEN [i |-> e.i, a |-> TLCEval([k \in DOMAIN e.a |-> Dict(w, e.a[k], env)])]
                   ELSE Up(w, env[e.i], e.path)
Up(w, d, path) ==
  IF path = <<>> THEN d
  ELSE LET t == w.insts[d.i]
           f == TLCEval(Find(w, Sees(w, t.m), Assumptions(w, t.s), Supers(w, d.i)[Head(path)], 0))
       IN Up(w, Dict(w, f.e, d.a), Tail(path))
Run(w, m, given, calls, env) ==
  IF calls = <<>> THEN <<>>
  ELSE LET c == Head(calls)
           ns == Needs(w, c)
           ds == TLCEval([k \in DOMAIN ns |-> Dict(w, Find(w, Sees(w, m), given, ns[k], 0).e, env)])
           t == w.insts[ds[1].i]
           f == w.funs[c.n]
           more == Tail(ds)
           o == CASE c.k = "m" -> <<t.n>> \o Run(w, t.m, Assumptions(w, t.s), Plain(t.b), ds[1].a)
                  [] c.k = "d" -> IF t.o # <<>> THEN <<"o" \o t.n>> \o Run(w, t.m, Assumptions(w, t.s \o Extra(w, ds[1].i)), Plain(t.o[1]), ds[1].a \o more)
                                  ELSE <<"d" \o c.n>> \o Run(w, 1, Assumptions(w, Self(w, c.n)), Plain(w.classes[c.n].d), ds)
                  [] OTHER -> <<f.n>> \o Run(w, f.m, Assumptions(w, Assumes(w, c.n)), Plain(f.b), ds)
       IN TLCEval(o) \o Run(w, m, given, Tail(calls), env)
Output(w, m) == TLCEval(Run(w, m, {}, Plain(w.mods[m].tops), <<>>))

(* ---- what is wrong ---- *)
RECURSIVE Above(_, _)
Above(w, cs) == LET new == UNION {{w.classes[c].sup[j].c : j \in DOMAIN w.classes[c].sup} : c \in cs} \ cs
                IN IF new = {} THEN cs ELSE Above(w, cs \cup new)
Cyclic(w) == \E c \in DOMAIN w.classes : c \in Above(w, {w.classes[c].sup[j].c : j \in DOMAIN w.classes[c].sup})

(* two instances that came from the same other module were compared there *)
Clashing(w, m) == TLCEval({w.insts[i].h.c : i \in {i \in Sees(w, m) : \E j \in Sees(w, m) :
                                               Overlap(w, i, j) /\ ~(w.insts[i].m = w.insts[j].m /\ w.insts[i].m # m)}})
Finds(w, m) ==
  LET sees == Sees(w, m)
      of(given, body) == LET calls == TLCEval(Plain(body)) IN
                         UNION {LET ns == Needs(w, calls[k]) IN {Find(w, sees, given, ns[j], 0) : j \in DOMAIN ns} : k \in DOMAIN calls}
      (* what it assumes is not there yet for what is not about its parameters *)
      inferred(i) == LET g == Assumptions(w, Assumes(w, i)) calls == TLCEval(Plain(w.funs[i].b)) IN
                     UNION {LET ns == Needs(w, calls[k]) IN
                            {Find(w, sees, IF GensC(ns[j]) = {} THEN {} ELSE g, ns[j], 0) : j \in DOMAIN ns} : k \in DOMAIN calls}
      mine == {i \in DOMAIN w.insts : w.insts[i].m = m}
  IN TLCEval(UNION {LET sup == Supers(w, i) g == Assumptions(w, w.insts[i].s)
                    IN {Find(w, sees, g, sup[j], 0) : j \in DOMAIN sup} \cup of(g, w.insts[i].b)
                        \cup of(Assumptions(w, w.insts[i].s \o Extra(w, i)), Concat(w.insts[i].o)) : i \in mine}
             \cup (IF m # 1 THEN {} ELSE UNION {of(Assumptions(w, Self(w, c)), w.classes[c].d) : c \in DOMAIN w.classes})
             \cup UNION {of(Assumptions(w, Assumes(w, i)), w.funs[i].b) : i \in {i \in DOMAIN w.funs : w.funs[i].m = m /\ ~w.funs[i].inf}}
             \cup UNION {inferred(i) : i \in {i \in DOMAIN w.funs : w.funs[i].m = m /\ w.funs[i].inf}}
             \cup of({}, w.mods[m].tops))
Wrong(w, m) ==
  IF Cyclic(w) THEN (IF m = 1 THEN {"cyclic"} ELSE {})
  ELSE LET fs == Finds(w, m)
           used == {w.insts[i].h.c : i \in {i \in DOMAIN w.insts : w.insts[i].m = m}} \cup UNION {f.tc : f \in fs}
       IN (IF \E f \in fs : ~f.ok THEN {"missing"} ELSE {}) \cup (IF Clashing(w, m) \cap used # {} THEN {"overlap"} ELSE {})
Coherent(w) == ~\E i, j \in DOMAIN w.insts : Overlap(w, i, j)
Ambiguous(w) == \E m \in DOMAIN w.mods : \E f \in Finds(w, m) : f.amb

(* the first module that has something wrong, and what the modules print *)
RECURSIVE FirstWrong(_, _)
FirstWrong(w, m) == IF m > Len(w.mods) THEN [m |-> 0, e |-> {}]
                    ELSE LET e == TLCEval(Wrong(w, m)) IN IF e = {} THEN FirstWrong(w, m + 1) ELSE [m |-> m, e |-> e]
Judge(w) == LET f == TLCEval(FirstWrong(w, 1)) IN
            IF f.m # 0 THEN [bad |-> f.m, e |-> f.e, out |-> <<>>, sure |-> TRUE]
            ELSE [bad |-> 0, e |-> {}, sure |-> Coherent(w) \/ (~w.local /\ ~Ambiguous(w)), out |-> [m \in DOMAIN w.mods |-> Output(w, m)]]
=============================================================================
