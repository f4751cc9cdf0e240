----------------------------- MODULE UnifyLaws -----------------------------
(* Solve is most general: over every pair of small terms, a ground assignment is a solution of the   *)
(* pair exactly when it is one of what Solve answers, and Solve fails exactly when no finite term    *)
(* assignment solves it. Matched finds an assignment exactly when one exists.                        *)
EXTENDS Unify

N == 3
Leaves == {V(n) : n \in 1..N} \cup {C("Int"), C("Bool")}
T1 == Leaves \cup {[k |-> "a", f |-> C("Pair"), l |-> <<x, y>>] : x \in Leaves, y \in Leaves}
T2 == T1 \cup {[k |-> "a", f |-> C("Pair"), l |-> <<x, y>>] : x \in T1, y \in {V(1), V(2), C("Int")}}
Pair(x, y) == [k |-> "a", f |-> C("Pair"), l |-> <<x, y>>]
Ground == {C("Int"), C("Bool"), Pair(C("Int"), C("Int")), Pair(C("Int"), C("Bool"))}
Assign == [1..N -> Ground]
Free == TLCEval([n \in 1..N |-> None])
KD == TLCEval([n \in 1..N |-> Type])

VARIABLES a, b
LInit == a \in T2 /\ b = C("Int") /\ i = 0 /\ j = 0 /\ s = 0 /\ out = 0
LNext == j = 0 /\ j' = 1 /\ b' \in T1 /\ UNCHANGED <<a, i, s, out>>
LSpec == LInit /\ [][LNext]_<<a, b, i, j, s, out>>

Solution(x, y) == Solve(KD, Free, <<<<x, y>>>>)
MostGeneral == LET sol == TLCEval(Solution(a, b))
                   r == IF ~sol.ok THEN Free ELSE TLCEval([n \in 1..N |-> Res(sol.x, V(n))])
               IN /\ \A th \in Assign : (Res(th, a) = Res(th, b)) <=> (sol.ok /\ \A n \in 1..N : Res(th, r[n]) = th[n])
                  /\ sol.ok => Res(sol.x, a) = Res(sol.x, b)
                  /\ sol.ok <=> Solution(b, a).ok
RECURSIVE Once(_, _, _), Subterms(_)
Once(vs, m, t) == CASE t.k = "v" -> IF t.v \in vs THEN m[t.v] ELSE t
                    [] t.k = "a" -> TLCEval([k |-> "a", f |-> t.f, l |-> [x \in DOMAIN t.l |-> Once(vs, m, t.l[x])]])
                    [] OTHER -> t
Subterms(t) == {t} \cup IF t.k = "a" THEN UNION {Subterms(t.l[x]) : x \in DOMAIN t.l} ELSE {}
MatchLaw == LET vs == Vars(a) \ Vars(b)
                m == TLCEval(Matched(KD, Free, vs, <<<<a, b>>>>))
            IN IF m.ok THEN Once(vs, m.x, a) = b ELSE \A th \in [vs -> Subterms(b)] : Once(vs, th, a) # b
=============================================================================
