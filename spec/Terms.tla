------------------------------- MODULE Terms -------------------------------
(* First order terms: [k |-> "v", v] (v-th variable created), [k |-> "c", n] (constructor),           *)
(* [k |-> "g", g] (rigid type parameter) and [k |-> "a", f, l] (application).  A solution is a        *)
(* sequence that gives every variable None or the term that it stands for.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [k |-> "-"]
V(n) == [k |-> "v", v |-> n]
C(n) == [k |-> "c", n |-> n]
G(n) == [k |-> "g", g |-> n]
A(f, l) == IF l = <<>> THEN f ELSE [k |-> "a", f |-> f, l |-> l]
Type == C("t")
Fun(l, r) == [k |-> "a", f |-> C("->"), l |-> TLCEval(Append(l, r))]

RECURSIVE Vars(_), Gens(_), Res(_, _)
Vars(t) == CASE t.k = "v" -> {t.v}
             [] t.k = "a" -> Vars(t.f) \cup UNION {Vars(t.l[i]) : i \in DOMAIN t.l}
             [] OTHER -> {}
Gens(t) == CASE t.k = "g" -> {t.g}
             [] t.k = "a" -> Gens(t.f) \cup UNION {Gens(t.l[i]) : i \in DOMAIN t.l}
             [] OTHER -> {}
(* what a term stands for *)
Res(sub, t) == CASE t.k = "v" -> IF sub[t.v] = None THEN t ELSE TLCEval(Res(sub, sub[t.v]))
                 [] t.k = "a" -> TLCEval([k |-> "a", f |-> Res(sub, t.f), l |-> [i \in DOMAIN t.l |-> Res(sub, t.l[i])]])
                 [] OTHER -> t

ConKinds == [Int |-> Type, Bool |-> Type, List |-> Fun(<<Type>>, Type), Pair |-> Fun(<<Type, Type>>, Type),
             Fix |-> Fun(<<Fun(<<Type>>, Type)>>, Type), Cur |-> Fun(<<Type>>, Fun(<<Type>>, Type)), Fn |-> Fun(<<Type, Type, Type>>, Type)]
GenKinds == <<Type, Type, Fun(<<Type>>, Type)>>

RECURSIVE KindOf(_, _)
KindOf(kd, t) == CASE t.k = "v" -> kd[t.v]
                   [] t.k = "c" -> ConKinds[t.n]
                   [] t.k = "g" -> GenKinds[t.g]
                   [] OTHER -> LET k == KindOf(kd, t.f) IN k.l[Len(k.l)]

(* The most general solution of sub together with eqs, or Fail.  kd = <<>>: terms without kinds.    *)
Fail == [ok |-> FALSE]
Good(x) == [ok |-> TRUE, x |-> x]
RECURSIVE Solve(_, _, _)
Solve(kd, sub, eqs) ==
  IF eqs = <<>> THEN Good(sub)
  ELSE LET a == TLCEval(Res(sub, Head(eqs)[1])) b == TLCEval(Res(sub, Head(eqs)[2])) IN
       IF a = b THEN Solve(kd, sub, Tail(eqs))
       ELSE IF a.k = "v" \/ b.k = "v"
            THEN LET v == IF a.k = "v" THEN a.v ELSE b.v
                     t == IF a.k = "v" THEN b ELSE a
                 IN IF v \in Vars(t) THEN Fail
                    ELSE IF kd # <<>> /\ kd[v] # KindOf(kd, t) THEN Fail
                    ELSE Solve(kd, TLCEval([sub EXCEPT ![v] = t]), Tail(eqs))
       ELSE IF a.k = "a" /\ b.k = "a" /\ Len(a.l) = Len(b.l)
            THEN Solve(kd, sub, TLCEval(<<<<a.f, b.f>>>> \o [i \in DOMAIN a.l |-> <<a.l[i], b.l[i]>>] \o Tail(eqs)))
       ELSE Fail

(* m: a sequence of <<type parameter, term>> *)
RECURSIVE Replace(_, _)
Replace(m, t) == CASE t.k = "g" -> LET js == {j \in DOMAIN m : m[j][1] = t.g} IN IF js = {} THEN t ELSE m[CHOOSE j \in js : TRUE][2]
                   [] t.k = "a" -> TLCEval([k |-> "a", f |-> Replace(m, t.f), l |-> [i \in DOMAIN t.l |-> Replace(m, t.l[i])]])
                   [] OTHER -> t
=============================================================================
