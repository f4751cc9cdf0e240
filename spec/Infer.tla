------------------------------- MODULE Infer -------------------------------
(* What the types of the functions of a program are, and whether it has any.                         *)
(*                                                                                                   *)
(* A world gives the names that a program can use, and the classes and instances that are in scope:  *)
(*   env     : name -> scheme [ps : parameters, s : constraints, t : type]                           *)
(*   classes : name -> [ps, sup : constraints]                                                       *)
(*   insts   : sequence of [ps, s : constraints, h : constraint]                                     *)
(* with constraints [c : class, l : types].  A program is a sequence of functions                    *)
(* [n : name, ps : <<>> or <<parameters>>, ann : <<>> or <<scheme>>, b : body].  Names are unique.     *)
(*                                                                                                   *)
(* A type variable may be generalised where nothing in scope mentions it: there are no levels here.  *)
EXTENDS Terms

Bool == C("Bool")
Unit == C("unit")
NoFun == [x \in {} |-> None]
Mono(t) == [ps |-> <<>>, s |-> <<>>, t |-> t]
With(env, ns, ts) == TLCEval([n \in {ns[k] : k \in DOMAIN ns} |-> Mono(ts[CHOOSE k \in DOMAIN ns : ns[k] = n])] @@ env)

(* ---- state: sub, the constraints cc of the current function, ok; why it failed, n type parameters made ---- *)
Start == [ok |-> TRUE, why |-> "", sub |-> <<>>, cc |-> <<>>, n |-> 0]
No(st, why) == IF st.ok THEN [st EXCEPT !.ok = FALSE, !.why = why] ELSE st
Fresh(st, n) == TLCEval([st EXCEPT !.sub = @ \o [k \in 1..n |-> None]])
Var(st, k) == V(Len(st.sub) + k)
Unify(st, a, b) == IF ~st.ok THEN st
                   ELSE LET r == TLCEval(Solve(<<>>, st.sub, <<<<a, b>>>>)) IN
                        IF r.ok THEN TLCEval([st EXCEPT !.sub = r.x]) ELSE No(st, "type")
Of(st, t) == TLCEval(Res(st.sub, t))
ResC(st, c) == TLCEval([c |-> c.c, l |-> [k \in DOMAIN c.l |-> Res(st.sub, c.l[k])]])
ReplaceC(m, c) == TLCEval([c |-> c.c, l |-> [k \in DOMAIN c.l |-> Replace(m, c.l[k])]])
VarsC(c) == UNION {Vars(c.l[k]) : k \in DOMAIN c.l}
GensC(c) == UNION {Gens(c.l[k]) : k \in DOMAIN c.l}

(* a use of a scheme: new variables for its parameters, and its constraints are to be satisfied *)
Use(st, sch) == LET m == TLCEval([k \in DOMAIN sch.ps |-> <<sch.ps[k], Var(st, k)>>])
                    f == Fresh(st, Len(sch.ps))
                IN [s |-> TLCEval([f EXCEPT !.cc = @ \o [k \in DOMAIN sch.s |-> ReplaceC(m, sch.s[k])]]),
                    t |-> IF sch.ps = <<>> THEN sch.t ELSE TLCEval(Replace(m, sch.t))]
Literal(st, class) == [s |-> TLCEval([Fresh(st, 1) EXCEPT !.cc = Append(@, [c |-> class, l |-> <<Var(st, 1)>>])]), t |-> Var(st, 1)]

(* ---- constraints ---- *)
(* what an assumption gives: itself and what its superclasses are *)
RECURSIVE Assumed(_, _)
Assumed(w, c) == LET k == w.classes[c.c]
                     m == TLCEval([j \in DOMAIN k.ps |-> <<k.ps[j], c.l[j]>>])
                 IN {c} \cup UNION {Assumed(w, ReplaceC(m, k.sup[j])) : j \in DOMAIN k.sup}
Premise(w, cs) == TLCEval(UNION {Assumed(w, cs[k]) : k \in DOMAIN cs})

(* the assignment to the parameters that makes the head of an instance a constraint *)
RECURSIVE MatchHead(_, _)
MatchHead(m, eqs) ==
  IF eqs = <<>> THEN Good(m)
  ELSE LET a == Head(eqs)[1] b == Head(eqs)[2] IN
       IF a.k = "g" /\ a.g \in DOMAIN m
       THEN IF m[a.g] = None THEN MatchHead(TLCEval([m EXCEPT ![a.g] = b]), Tail(eqs))
            ELSE IF m[a.g] = b THEN MatchHead(m, Tail(eqs)) ELSE Fail
       ELSE IF a.k # "a" /\ a = b THEN MatchHead(m, Tail(eqs))
       ELSE IF a.k = "a" /\ b.k = "a" /\ Len(a.l) = Len(b.l)
            THEN MatchHead(m, TLCEval(<<<<a.f, b.f>>>> \o [k \in DOMAIN a.l |-> <<a.l[k], b.l[k]>>] \o Tail(eqs)))
       ELSE Fail
HeadMatch(inst, c) == IF inst.h.c # c.c THEN Fail
                      ELSE MatchHead(TLCEval([g \in {inst.ps[k] : k \in DOMAIN inst.ps} |-> None]),
                                     [k \in DOMAIN c.l |-> <<inst.h.l[k], c.l[k]>>])
Depth == 20
RECURSIVE Holds(_, _, _, _)
Holds(w, prem, c, d) ==
  /\ d <= Depth
  /\ \/ c \in prem
     \/ \E k \in DOMAIN w.insts :
          LET i == w.insts[k] r == TLCEval(HeadMatch(i, c)) IN
          /\ r.ok
          /\ LET m == TLCEval([j \in DOMAIN i.ps |-> <<i.ps[j], r.x[i.ps[j]]>>])
             IN \A j \in DOMAIN i.s : Holds(w, prem, ReplaceC(m, i.s[j]), d + 1)

(* what a variable stands for if only constraints mention it *)
Default(cs, v) == IF \E k \in DOMAIN cs : cs[k].c = "FPNumber" /\ cs[k].l[1] = V(v) THEN C("F64")
                  ELSE IF \E k \in DOMAIN cs : cs[k].c = "Number" /\ cs[k].l[1] = V(v) THEN C("I32")
                  ELSE Unit

(* ---- generalisation ---- *)
InScope(st, env) == UNION {Vars(Of(st, env[n].t)) \cup UNION {VarsC(ResC(st, env[n].s[k])) : k \in DOMAIN env[n].s} : n \in DOMAIN env}

(* The end of a function or a group: quantify gives the variables that become type parameters.  The  *)
(* constraints of st that concern nothing but outer variables are left for the outer function if     *)
(* they do not follow here; outer is <<>> at top level.                                              *)
Finish(w, st, env, prem, own, quantify, outer) ==
  IF ~st.ok THEN [s |-> st, ps |-> <<>>, cs |-> <<>>]
  ELSE
  LET scope == TLCEval(InScope(st, env))
      cs == TLCEval([k \in DOMAIN st.cc |-> ResC(st, st.cc[k])])
      Inner(c) == VarsC(c) \ scope
      deferred == TLCEval({k \in DOMAIN cs : outer /\ Inner(cs[k]) = {} /\ GensC(cs[k]) \cap own = {}})
      params == TLCEval({k \in DOMAIN cs \ deferred : Inner(cs[k]) # {} /\ Inner(cs[k]) \subseteq quantify})
      solved == TLCEval(DOMAIN cs \ (deferred \cup params))
      defaulted == TLCEval(UNION {Inner(cs[k]) \ quantify : k \in solved})
      qs == TLCEval(CHOOSE q \in [1..Cardinality(quantify) -> quantify] : \A x, y \in DOMAIN q : x < y => q[x] < q[y])
      ps == TLCEval([k \in DOMAIN qs |-> "_" \o ToString(st.n + k)])
      sub == TLCEval([v \in DOMAIN st.sub |-> IF v \in quantify THEN G(ps[CHOOSE k \in DOMAIN qs : qs[k] = v])
                                              ELSE IF v \in defaulted THEN Default(SelectSeq(cs, LAMBDA c : v \in VarsC(c)), v)
                                              ELSE st.sub[v]])
      n == TLCEval([st EXCEPT !.sub = sub, !.n = @ + Len(ps)])
      holds(k) == Holds(w, prem, ResC(n, cs[k]), 0)
      left == TLCEval(SelectSeq([k \in DOMAIN cs |-> k], LAMBDA k : k \in deferred /\ ~holds(k)))
      chosen == TLCEval(SelectSeq([k \in DOMAIN cs |-> k], LAMBDA k : k \in params))
  IN [s |-> IF \A k \in solved : holds(k) THEN TLCEval([n EXCEPT !.cc = [k \in DOMAIN left |-> cs[left[k]]]]) ELSE No(n, "class"),
      ps |-> ps, cs |-> TLCEval([k \in DOMAIN chosen |-> ResC(n, cs[chosen[k]])])]

(* ---- names that an expression uses ---- *)
RECURSIVE Used(_)
All(l) == UNION {Used(l[k]) : k \in DOMAIN l}
Used(e) == CASE e.k = "u" -> {e.n}
             [] e.k = "a" -> Used(e.f) \cup All(e.l)
             [] e.k = "l" -> Used(e.b) \cup All(e.vs) \cup All(e.fs)
             [] e.k \in {"def", "w", "t", "r"} -> Used(e.b) \cup (IF e.k = "w" THEN Used(e.c) ELSE {})
             [] e.k = "i" -> Used(e.c) \cup Used(e.t) \cup Used(e.e)
             [] e.k = "m" -> Used(e.t) \cup All([k \in DOMAIN e.cs |-> e.cs[k].b])
             [] e.k = "q" -> All(e.l)
             [] OTHER -> {}

(* the groups of mutually recursive functions among fs (indices), dependencies first *)
RECURSIVE Reach(_, _, _)
Reach(fs, is, seen) == LET new == {k \in is : k \notin seen /\ \E j \in seen : fs[k].n \in Used(fs[j].b)}
                       IN IF new = {} THEN seen ELSE Reach(fs, is, seen \cup new)
RECURSIVE Groups(_, _)
Groups(fs, is) ==
  IF is = {} THEN <<>>
  ELSE LET group(k) == {j \in Reach(fs, is, {k}) : k \in Reach(fs, is, {j})}
           k == CHOOSE k \in is : Reach(fs, is, {k}) = group(k)
           g == TLCEval(group(k))
       IN <<SelectSeq([j \in DOMAIN fs |-> j], LAMBDA j : j \in g)>> \o Groups(fs, is \ g)

(* ---- expressions: the state after and the type; ret is the result type of the function or None ---- *)
R(st, t) == [s |-> st, t |-> t]
RECURSIVE W(_, _, _, _, _, _), Seq_(_, _, _, _, _, _), Pat(_, _, _), Pats(_, _, _, _),
          Clauses(_, _, _, _, _, _, _, _), LetVars(_, _, _, _, _, _), Impl(_, _, _, _, _, _, _), Expl(_, _, _, _, _, _, _), Bodies(_, _, _, _, _, _, _, _)

Seq_(w, st, env, prem, ret, l) ==
  IF l = <<>> THEN R(st, <<>>)
  ELSE LET a == TLCEval(W(w, st, env, prem, ret, Head(l))) IN
       IF ~a.s.ok THEN R(a.s, <<>>)
       ELSE LET b == TLCEval(Seq_(w, a.s, env, prem, ret, Tail(l))) IN R(b.s, <<a.t>> \o b.t)

(* a pattern: state, type and the variables <<name, type>> that it binds *)
P(st, t, b) == [s |-> st, t |-> t, b |-> b]
Pats(w, st, l, b) == IF l = <<>> THEN P(st, <<>>, b)
                     ELSE LET x == TLCEval(Pat(w, st, Head(l))) y == TLCEval(Pats(w, x.s, Tail(l), b \o x.b)) IN P(y.s, <<x.t>> \o y.t, y.b)
Pat(w, st, p) ==
  CASE p.k = "_" -> P(Fresh(st, 1), Var(st, 1), <<>>)
    [] p.k = "v" -> P(Fresh(st, 1), Var(st, 1), <<<<p.n, Var(st, 1)>>>>)
    [] p.k = "as" -> LET x == TLCEval(Pat(w, Fresh(st, 1), p.p)) IN P(Unify(x.s, Var(st, 1), x.t), Var(st, 1), <<<<p.n, Var(st, 1)>>>> \o x.b)
    [] p.k = "c" -> P(st, p.t, <<>>)
    [] p.k = "n" -> LET x == Literal(st, "Number") IN P(x.s, x.t, <<>>)
    [] p.k = "d" -> LET u == TLCEval(Use(st, w.env[p.n])) IN
                    IF p.l = <<>> THEN P(u.s, u.t, <<>>)
                    ELSE LET x == TLCEval(Pats(w, u.s, p.l[1], <<>>)) IN P(Unify(Fresh(x.s, 1), u.t, Fun(x.t, Var(x.s, 1))), Var(x.s, 1), x.b)

Clauses(w, st, env, prem, ret, target, res, cs) ==
  IF cs = <<>> \/ ~st.ok THEN st
  ELSE LET p == TLCEval(Pat(w, st, Head(cs).p))
           a == TLCEval(Unify(p.s, target, p.t))
           b == TLCEval(W(w, a, With(env, [k \in DOMAIN p.b |-> p.b[k][1]], [k \in DOMAIN p.b |-> p.b[k][2]]), prem, ret, Head(cs).b))
       IN Clauses(w, Unify(b.s, res, b.t), env, prem, ret, target, res, Tail(cs))

LetVars(w, st, env, prem, ret, vs) ==
  IF vs = <<>> \/ ~st.ok THEN R(st, <<>>)
  ELSE LET a == TLCEval(W(w, st, env, prem, ret, Head(vs).b))
           u == IF Head(vs).ann = <<>> THEN a.s ELSE TLCEval(Unify(a.s, a.t, Head(vs).ann[1]))
           b == TLCEval(LetVars(w, u, env, prem, ret, Tail(vs)))
       IN R(b.s, <<a.t>> \o b.t)

(* the bodies of fs, whose parameters and results have been given types *)
Bodies(w, st, env, prem, fs, pts, rts, k) ==
  IF k > Len(fs) \/ ~st.ok THEN st
  ELSE LET e == IF fs[k].ps = <<>> THEN env ELSE With(env, fs[k].ps[1], pts[k])
           a == TLCEval(W(w, st, e, prem, rts[k], fs[k].b))
       IN Bodies(w, Unify(a.s, rts[k], a.t), env, prem, fs, pts, rts, k + 1)

Arity(f) == IF f.ps = <<>> THEN 0 ELSE Len(f.ps[1])
Typed(f, ps, r) == IF f.ps = <<>> THEN r ELSE Fun(ps, r)
(* functions without signatures, group by group: the environment in .t *)
Impl(w, st, env, prem, fs, groups, inner) ==
  IF groups = <<>> \/ ~st.ok THEN R(st, env)
  ELSE LET g == TLCEval([k \in DOMAIN Head(groups) |-> fs[Head(groups)[k]]])
           off[k \in 0..Len(g)] == IF k = 0 THEN 0 ELSE off[k - 1] + Arity(g[k]) + 1
           pts == TLCEval([k \in DOMAIN g |-> [j \in 1..Arity(g[k]) |-> Var(st, off[k - 1] + j)]])
           rts == TLCEval([k \in DOMAIN g |-> Var(st, off[k])])
           names == TLCEval([k \in DOMAIN g |-> g[k].n])
           types == TLCEval([k \in DOMAIN g |-> Typed(g[k], pts[k], rts[k])])
           st1 == TLCEval([Fresh(st, off[Len(g)]) EXCEPT !.cc = <<>>])
           st2 == TLCEval(Bodies(w, st1, With(env, names, types), prem, g, pts, rts, 1))
           scope == TLCEval(InScope(st2, env))
           tvs == TLCEval([k \in DOMAIN g |-> Vars(Of(st2, types[k])) \ scope])
           (* type parameters belong to every function of the group, so they occur in every type *)
           common == TLCEval({v \in tvs[1] : \A k \in DOMAIN g : v \in tvs[k]})
           f == TLCEval(Finish(w, st2, env, prem, {}, common, inner))
           rest == TLCEval(UNION {Vars(Of(f.s, types[k])) : k \in DOMAIN g} \ InScope(f.s, env))
           st3 == TLCEval([f.s EXCEPT !.sub = [v \in DOMAIN @ |-> IF v \in rest THEN Unit ELSE @[v]], !.cc = st.cc \o @])
           sch == TLCEval([n \in {names[k] : k \in DOMAIN g} |->
                    [ps |-> f.ps, s |-> f.cs, t |-> Of(st3, types[CHOOSE k \in DOMAIN g : names[k] = n])]])
       IN IF ~st2.ok THEN R(st2, env) ELSE IF ~f.s.ok THEN R(f.s, env) ELSE Impl(w, st3, TLCEval(sch @@ env), prem, fs, Tail(groups), inner)

(* functions with signatures *)
Expl(w, st, env, prem, fs, ks, inner) ==
  IF ks = <<>> \/ ~st.ok THEN st
  ELSE LET f == fs[Head(ks)] sch == f.ann[1]
           n == Arity(f)
           pts == TLCEval([j \in 1..n |-> Var(st, j)])
           ret == Var(st, n + 1)
           st1 == TLCEval(Unify([Fresh(st, n + 1) EXCEPT !.cc = <<>>], Typed(f, pts, ret), sch.t))
           p2 == TLCEval(prem \cup Premise(w, sch.s))
           own == {sch.ps[k] : k \in DOMAIN sch.ps}
           st2 == TLCEval(Bodies(w, st1, env, p2, <<f>>, <<pts>>, <<ret>>, 1))
           fin == TLCEval(Finish(w, st2, env, p2, own, {}, inner))
           (* its type parameters are not known outside of it *)
           leaks == \E x \in DOMAIN env : env[x].ps = <<>> /\ Gens(Of(fin.s, env[x].t)) \cap own # {}
       IN IF ~st2.ok THEN st2
          ELSE IF leaks THEN No(st2, "type")
          ELSE Expl(w, [fin.s EXCEPT !.cc = st.cc \o @], env, prem, fs, Tail(ks), inner)

Functions(w, st, env, prem, fs, inner) ==
  LET all == [k \in DOMAIN fs |-> k]
      ex == SelectSeq(all, LAMBDA k : fs[k].ann # <<>>)
      env1 == TLCEval([n \in {fs[ex[k]].n : k \in DOMAIN ex} |-> fs[CHOOSE k \in DOMAIN fs : fs[k].n = n].ann[1]] @@ env)
      i == TLCEval(Impl(w, st, env1, prem, fs, Groups(fs, {k \in DOMAIN fs : fs[k].ann = <<>>}), inner))
  IN IF ~i.s.ok THEN i ELSE R(Expl(w, i.s, i.t, prem, fs, ex, inner), i.t)

W(w, st, env, prem, ret, e) ==
  IF ~st.ok THEN R(st, Unit)
  ELSE CASE e.k = "u" -> Use(st, IF e.n \in DOMAIN env THEN env[e.n] ELSE w.env[e.n])
    [] e.k = "c" -> R(st, e.t)
    [] e.k = "n" -> Literal(st, "Number")
    [] e.k = "f" -> Literal(st, "FPNumber")
    [] e.k = "a" -> LET f == TLCEval(W(w, st, env, prem, ret, e.f))
                        l == TLCEval(Seq_(w, f.s, env, prem, ret, e.l))
                    IN R(Unify(Fresh(l.s, 1), f.t, Fun(l.t, Var(l.s, 1))), Var(l.s, 1))
    [] e.k = "i" -> LET c == TLCEval(W(w, st, env, prem, ret, e.c))
                        t == TLCEval(W(w, Unify(c.s, c.t, Bool), env, prem, ret, e.t))
                        f == TLCEval(W(w, t.s, env, prem, ret, e.e))
                    IN R(Unify(f.s, t.t, f.t), t.t)
    [] e.k = "w" -> LET c == TLCEval(W(w, st, env, prem, ret, e.c))
                        b == TLCEval(W(w, Unify(c.s, c.t, Bool), env, prem, ret, e.b))
                    IN R(b.s, Unit)
    [] e.k = "q" -> LET l == TLCEval(Seq_(w, st, env, prem, ret, e.l)) IN R(l.s, IF l.s.ok THEN l.t[Len(l.t)] ELSE Unit)
    [] e.k = "t" -> LET b == TLCEval(W(w, st, env, prem, ret, e.b)) IN R(Unify(b.s, b.t, e.ann), b.t)
    [] e.k = "r" -> LET b == TLCEval(W(w, st, env, prem, ret, e.b)) IN R(Fresh(Unify(b.s, ret, b.t), 1), Var(b.s, 1))
    [] e.k = "m" -> LET t == TLCEval(W(w, st, env, prem, ret, e.t)) res == Var(t.s, 1)
                    IN R(Clauses(w, Fresh(t.s, 1), env, prem, ret, t.t, res, e.cs), res)
    [] e.k = "l" -> LET f == TLCEval(Functions(w, st, env, prem, e.fs, TRUE))
                        v == TLCEval(LetVars(w, f.s, f.t, prem, ret, e.vs))
                    IN IF ~f.s.ok THEN f ELSE IF ~v.s.ok THEN v
                       ELSE W(w, v.s, With(f.t, [k \in DOMAIN e.vs |-> e.vs[k].n], v.t), prem, ret, e.b)

(* a program: whether it has types and which *)
Typing(w, fs) ==
  LET r == TLCEval(Functions(w, Start, NoFun, {}, fs, FALSE))
  IN IF r.s.ok THEN [ok |-> TRUE, why |-> "", types |-> [n \in DOMAIN r.t |->
         [ps |-> r.t[n].ps, s |-> [k \in DOMAIN r.t[n].s |-> ResC(r.s, r.t[n].s[k])], t |-> Of(r.s, r.t[n].t)]]]
     ELSE [ok |-> FALSE, why |-> r.s.why, types |-> NoFun]
=============================================================================
