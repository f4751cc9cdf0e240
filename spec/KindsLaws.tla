----------------------------- MODULE KindsLaws -----------------------------
(* A data type of two parameters has the least kinds with which its fields are types, if it has any. *)
EXTENDS Kinds
K1 == {Type, Fun(<<Type>>, Type)}
K == TLCEval(K1 \cup {Fun(<<a>>, Type) : a \in K1} \cup {Fun(<<a, Type>>, Type) : a \in K1} \cup {Fun(<<Type>>, Fun(<<Type>>, Type))})
A_(f, l) == [k |-> "a", f |-> f, l |-> l]
P == {G("A"), G("B")}
T0 == P \cup {C("T"), C("I32"), C("Ptr")}
T1 == TLCEval(T0 \cup {A_(f, <<x>>) : f \in P \cup {C("Ptr")}, x \in T0})
T2 == TLCEval(T1 \cup {A_(C("T"), <<x, y>>) : x \in P, y \in P \cup {A_(G("A"), <<G("B")>>)}} \cup {A_(A_(G("A"), <<x>>), <<y>>) : x \in P, y \in P} \cup {A_(G("A"), <<x, y>>) : x \in P, y \in P}
              \cup {[k |-> "->", l |-> <<x, y>>] : x \in P, y \in P})

(* declarative: env gives every name its kind *)
RECURSIVE KOf(_, _)
KOf(e, t) == CASE t.k = "c" -> e[t.n]
               [] t.k = "g" -> e[t.g]
               [] t.k = "->" -> IF \A i \in DOMAIN t.l : KOf(e, t.l[i]) = Type THEN Type ELSE None
               [] OTHER -> LET f == KOf(e, t.f) ks == [i \in DOMAIN t.l |-> KOf(e, t.l[i])] IN
                           IF f.k = "a" /\ Len(f.l) = Len(ks) + 1 /\ SubSeq(f.l, 1, Len(ks)) = ks THEN f.l[Len(f.l)] ELSE None
EnvOf(a, b) == [I32 |-> Type, Ptr |-> Fun(<<Type>>, Type), A |-> a, B |-> b, T |-> Fun(<<a, b>>, Type)]
RECURSIVE Size(_)
Size(k) == IF k.k = "a" THEN LET r[i \in 0..Len(k.l)] == IF i = 0 THEN 1 ELSE r[i - 1] + Size(k.l[i]) IN r[Len(k.l)] ELSE 1

VARIABLES x, y, r
Init == x \in T2 /\ y \in T2 /\ r = <<>>
Decl == [data |-> <<[n |-> "T", ps |-> <<[g |-> "A", a |-> <<>>], [g |-> "B", a |-> <<>>]>>, fs |-> <<x, y>>]>>,
         classes |-> <<>>, insts |-> <<>>, funs |-> <<>>, inits |-> <<>>]
Next == r = <<>> /\ r' = <<Kinding(<<Decl>>)>> /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, r>>
Fits(a, b) == LET e == EnvOf(a, b) IN KOf(e, x) = Type /\ KOf(e, y) = Type
Least == r = <<>> \/ LET q == r[1]
                         fits == {p \in K \X K : Fits(p[1], p[2])}
                     IN IF q.ok THEN LET a == q.env.A b == q.env.B IN
                                     /\ Fits(a, b) /\ q.env.T = Fun(<<a, b>>, Type)
                                     /\ \A p \in fits : Size(a) <= Size(p[1]) /\ Size(b) <= Size(p[2])
                        ELSE fits = {}
=============================================================================
