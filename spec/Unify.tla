------------------------------- MODULE Unify -------------------------------
(* First order unification with kinds and levels, as a machine over histories of operations.         *)
(*                                                                                                   *)
(* Types and kinds are terms; a function kind is the application of "->" to its arguments and its    *)
(* result.                                                                                           *)
(*                                                                                                   *)
(* The state is declarative: sub solves every equation stated so far, lv and kd are what variables   *)
(* were created with and never change.  The level of a variable is derived: it is the outermost      *)
(* level of the variables whose solution mentions it, because whoever reaches those reaches it.      *)
EXTENDS Terms, IOUtils, Json

Level(s, n) == LET ws == {w \in DOMAIN s.sub : n \in Vars(TLCEval(Res(s.sub, V(w))))}
                   ls == {s.lv[w] : w \in ws}
               IN CHOOSE l \in ls : \A m \in ls : l <= m
(* a type parameter is not to be seen outside of its scope *)
Scoped(s) == \A w \in DOMAIN s.sub : \A g \in Gens(TLCEval(Res(s.sub, V(w)))) : s.glv[g] <= s.lv[w]

Unified(s, eqs) == LET r == TLCEval(Solve(s.kd, s.sub, eqs)) IN
                   IF ~r.ok THEN Fail
                   ELSE LET n == TLCEval([s EXCEPT !.sub = r.x]) IN IF Scoped(n) THEN Good(n) ELSE Fail

(* the assignment to the variables vs of a that makes it b *)
RECURSIVE Matched(_, _, _, _)
Matched(kd, m, vs, eqs) ==
  IF eqs = <<>> THEN Good(m)
  ELSE LET a == Head(eqs)[1] b == Head(eqs)[2] IN
       IF a.k = "v" /\ a.v \in vs
       THEN IF m[a.v] # None THEN IF m[a.v] = b THEN Matched(kd, m, vs, Tail(eqs)) ELSE Fail
            ELSE IF kd[a.v] # KindOf(kd, b) THEN Fail
            ELSE Matched(kd, TLCEval([m EXCEPT ![a.v] = b]), vs, Tail(eqs))
       ELSE IF a = b THEN Matched(kd, m, vs, Tail(eqs))
       ELSE IF a.k = "a" /\ b.k = "a" /\ Len(a.l) = Len(b.l)
            THEN Matched(kd, m, vs, TLCEval(<<<<a.f, b.f>>>> \o [i \in DOMAIN a.l |-> <<a.l[i], b.l[i]>>] \o Tail(eqs)))
       ELSE Fail
MatchedRight(s, ta, tb) ==
  LET a == TLCEval(Res(s.sub, ta))
      b == TLCEval(Res(s.sub, tb))
      vs == Vars(a) \ Vars(b)
      r == TLCEval(Matched(s.kd, TLCEval([i \in DOMAIN s.sub |-> None]), vs, <<<<a, b>>>>))
      m == r.x
  IN IF ~r.ok THEN Fail
     ELSE IF \A v \in vs : (\A x \in Vars(m[v]) : Level(s, x) <= Level(s, v)) /\ (\A g \in Gens(m[v]) : s.glv[g] <= Level(s, v))
     THEN Good([s EXCEPT !.sub = TLCEval([i \in DOMAIN s.sub |-> IF i \in vs THEN m[i] ELSE s.sub[i]])])
     ELSE Fail

(* variables in the order in which they are met *)
RECURSIVE Order(_)
Order(t) == CASE t.k = "v" -> <<t.v>>
              [] t.k = "a" -> LET r[i \in 0..Len(t.l)] == IF i = 0 THEN Order(t.f) ELSE r[i - 1] \o Order(t.l[i]) IN r[Len(t.l)]
              [] OTHER -> <<>>

(* the representative that is shown: the first created of the variables that are the same *)
Shown(s, n) == CHOOSE w \in DOMAIN s.sub : Res(s.sub, V(w)) = V(n) /\ \A x \in DOMAIN s.sub : Res(s.sub, V(x)) = V(n) => w <= x
RECURSIVE Show(_, _)
Show(s, t) == CASE t.k = "v" -> TLCEval([k |-> "v", v |-> Shown(s, t.v), lv |-> Level(s, t.v)])
                [] t.k = "a" -> TLCEval([k |-> "a", f |-> Show(s, t.f), l |-> [i \in DOMAIN t.l |-> Show(s, t.l[i])]])
                [] OTHER -> t
Dump(s) == TLCEval([i \in DOMAIN s.sl |-> Show(s, TLCEval(Res(s.sub, s.sl[i])))])

Start(glv) == [sub |-> <<>>, lv |-> <<>>, kd |-> <<>>, sl |-> <<>>, glv |-> glv, eqs |-> <<>>]
Slot(s, t) == [s EXCEPT !.sl = Append(@, t)]
Map(s, m) == TLCEval([j \in DOMAIN m |-> <<m[j][1], TLCEval(Res(s.sub, s.sl[m[j][2]]))>>])

State(s, n, e) == IF ~n.ok THEN [s |-> s, r |-> [ok |-> FALSE]]
                  ELSE LET m == [n.x EXCEPT !.eqs = @ \o e] IN [s |-> m, r |-> [ok |-> TRUE, d |-> Dump(m)]]
(* one operation: the next state and the answer *)
Do(s, o) ==
  LET t(n) == s.sl[n]
      Silent(n) == [s |-> n, r |-> [ok |-> TRUE]]
      Val(v) == [s |-> s, r |-> [ok |-> TRUE, v |-> v]]
  IN CASE o.o = "var" -> Silent(Slot([s EXCEPT !.sub = Append(@, None), !.lv = Append(@, o.lv), !.kd = Append(@, o.kd)], V(Len(s.sub) + 1)))
       [] o.o = "con" -> Silent(Slot(s, C(o.n)))
       [] o.o = "gen" -> Silent(Slot(s, G(o.n)))
       [] o.o = "app" -> Silent(Slot(s, A(t(o.f), [i \in DOMAIN o.l |-> t(o.l[i])])))
       [] o.o = "subst" -> Silent(Slot(s, Replace(Map(s, o.m), TLCEval(Res(s.sub, t(o.a))))))
       [] o.o = "unify" -> State(s, Unified(s, <<<<t(o.a), t(o.b)>>>>), <<<<t(o.a), t(o.b)>>>>)
       [] o.o = "match" -> State(s, MatchedRight(s, t(o.a), t(o.b)), <<<<t(o.a), t(o.b)>>>>)
       [] o.o = "default" -> LET e == [i \in DOMAIN Order(Res(s.sub, t(o.a))) |-> <<V(Order(Res(s.sub, t(o.a)))[i]), t(o.b)>>]
                             IN State(s, Unified(s, e), e)
       [] o.o = "equal" -> Val(Res(s.sub, t(o.a)) = Res(s.sub, t(o.b)))
       [] o.o = "eqs" -> Val(Replace(Map(s, o.m), Res(s.sub, t(o.a))) = Res(s.sub, t(o.b)))
       [] o.o = "vars" -> Val({Shown(s, n) : n \in {n \in Vars(Res(s.sub, t(o.a))) : o.lv <= Level(s, n)}})
       [] o.o = "deep" -> LET r == TLCEval(Res(s.sub, t(o.a)))
                              ls == {0} \cup {Level(s, n) : n \in Vars(r)} \cup {s.glv[g] : g \in Gens(r)}
                          IN Val(CHOOSE l \in ls : \A m \in ls : m <= l)
       [] o.o = "kind" -> Val(KindOf(s.kd, Res(s.sub, t(o.a))))

(* the same over kinds, which have no kinds nor levels *)
DoKind(s, o) ==
  LET t(n) == s.sl[n]
      Silent(n) == [s |-> n, r |-> [ok |-> TRUE]]
      Un(e) == LET r == TLCEval(Solve(<<>>, s.sub, e)) IN State(s, IF ~r.ok THEN Fail ELSE Good(TLCEval([s EXCEPT !.sub = r.x])), e)
  IN CASE o.o = "var" -> Silent(Slot([s EXCEPT !.sub = Append(@, None), !.lv = Append(@, 0)], V(Len(s.sub) + 1)))
       [] o.o = "con" -> Silent(Slot(s, C(o.n)))
       [] o.o = "fun" -> Silent(Slot(s, IF o.l = <<>> THEN t(o.f) ELSE Fun([i \in DOMAIN o.l |-> t(o.l[i])], t(o.f))))
       [] o.o = "unify" -> Un(<<<<t(o.a), t(o.b)>>>>)
       [] o.o = "default" -> Un([i \in DOMAIN Order(Res(s.sub, t(o.a))) |-> <<V(Order(Res(s.sub, t(o.a)))[i]), t(o.b)>>])

VARIABLES i, j, s, out
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
Init == i \in 1..Len(Batch) /\ j = 0 /\ s = Start(Batch[i].glv) /\ out = <<>>
Next == /\ j < Len(Batch[i].ops)
        /\ j' = j + 1
        /\ LET x == TLCEval(IF Batch[i].kinds THEN DoKind(s, Batch[i].ops[j + 1]) ELSE Do(s, Batch[i].ops[j + 1])) IN s' = x.s /\ out' = Append(out, x.r)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j, s, out>>

(* every equation that was ever stated still holds *)
Solved == \A e \in DOMAIN s.eqs : Res(s.sub, s.eqs[e][1]) = Res(s.sub, s.eqs[e][2])
(* solutions are finite and mention unsolved variables only *)
Finite == \A v \in DOMAIN s.sub : \A x \in Vars(Res(s.sub, V(v))) : s.sub[x] = None
(* solutions have the kinds of their variables and stay in scope *)
Kinded == ~Batch[i].kinds => \A v \in DOMAIN s.sub : KindOf(s.kd, Res(s.sub, V(v))) = s.kd[v]
InScope == ~Batch[i].kinds => Scoped(s)
Report == j = Len(Batch[i].ops) => PrintT(ToJson([id |-> Batch[i].id, out |-> out]))
=============================================================================
