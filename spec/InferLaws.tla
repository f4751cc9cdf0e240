----------------------------- MODULE InferLaws -----------------------------
(* The types that Infer gives are principal: a small function has a ground type by the declarative   *)
(* rules (a local function may have another type at each of its uses) exactly when that type is an   *)
(* instance of the one inferred.                                                                     *)
EXTENDS Infer
CONSTANT Wide

S == C("String")
Opt(t) == [k |-> "a", f |-> C("Opt"), l |-> <<t>>]
Pr(t, u) == [k |-> "a", f |-> C("Pair"), l |-> <<t, u>>]
T0 == {Bool, S}
T1 == T0 \cup {Opt(t) : t \in T0} \cup {Fun(<<t>>, u) : t \in T0, u \in T0}
U == TLCEval(T1 \cup {Pr(t, u) : t \in T0, u \in T0} \cup {Fun(<<t>>, Opt(t)) : t \in T0})
World == [env |-> [some |-> [ps |-> <<"A">>, s |-> <<>>, t |-> Fun(<<G("A")>>, Opt(G("A")))],
                   none |-> [ps |-> <<"A">>, s |-> <<>>, t |-> Opt(G("A"))],
                   pair |-> [ps |-> <<"A", "B">>, s |-> <<>>, t |-> Fun(<<G("A"), G("B")>>, Pr(G("A"), G("B")))]],
          classes |-> NoFun, insts |-> <<>>]

Use_(n) == [k |-> "u", n |-> n]
App_(f, l) == [k |-> "a", f |-> f, l |-> l]
If_(a, b) == [k |-> "i", c |-> [k |-> "c", t |-> Bool], t |-> a, e |-> b]
Def(n, p, b) == [k |-> "def", n |-> n, ps |-> <<<<p>>>>, ann |-> <<>>, b |-> b]
E0(vs) == {[k |-> "c", t |-> Bool], [k |-> "c", t |-> S], Use_("none")} \cup {Use_(v) : v \in vs}
A0(vs) == E0(vs) \ {Use_("none"), Use_("v")}
E1(vs) == E0(vs) \cup {App_(Use_("some"), <<a>>) : a \in A0(vs)}
              \cup {App_(Use_(f), <<a>>) : f \in vs, a \in A0(vs)}
              \cup {If_(Use_(a), b) : a \in vs, b \in E0(vs)}
Bodies_(vs) == E1(vs) \cup IF ~Wide THEN {} ELSE {App_(Use_("pair"), <<a, b>>) : a \in {App_(Use_(f), <<x>>) : f \in vs, x \in A0(vs)}, b \in {App_(Use_(f), <<x>>) : f \in vs, x \in A0(vs)}}
LetF(b, e) == [k |-> "l", fs |-> <<Def("g", "y", b)>>, vs |-> <<>>, b |-> e]
LetV(b, e) == [k |-> "l", fs |-> <<>>, vs |-> <<[k |-> "def", n |-> "v", ann |-> <<>>, b |-> b]>>, b |-> e]

(* declarative rules; env: name -> [m |-> TRUE, t] or [m |-> FALSE, d : definition, e : its environment] *)
RECURSIVE Has(_, _, _)
Mn(t) == [m |-> TRUE, t |-> t]
Has(env, e, t) ==
  CASE e.k = "c" -> t = e.t
    [] e.k = "u" -> IF e.n = "none" THEN t.k = "a" /\ t.f = C("Opt")
                    ELSE IF env[e.n].m THEN env[e.n].t = t
                    ELSE /\ t.k = "a" /\ t.f = C("->") /\ Len(t.l) = 2
                         /\ Has((e.n :> Mn(t)) @@ (env[e.n].d.ps[1][1] :> Mn(t.l[1])) @@ env[e.n].e, env[e.n].d.b, t.l[2])
    [] e.k = "i" -> Has(env, e.t, t) /\ Has(env, e.e, t)
    [] e.k = "a" -> IF e.f.n = "some" THEN t.k = "a" /\ t.f = C("Opt") /\ Has(env, e.l[1], t.l[1])
                    ELSE IF e.f.n = "pair" THEN t.k = "a" /\ t.f = C("Pair") /\ Has(env, e.l[1], t.l[1]) /\ Has(env, e.l[2], t.l[2])
                    ELSE \E a \in U : Has(env, e.l[1], a) /\ Has(env, e.f, Fun(<<a>>, t))
    [] e.k = "l" -> IF e.fs # <<>>
                    THEN /\ \E a \in U, r \in U : Has(("g" :> Mn(Fun(<<a>>, r))) @@ ("y" :> Mn(a)) @@ env, e.fs[1].b, r)
                         /\ Has(("g" :> [m |-> FALSE, d |-> e.fs[1], e |-> env]) @@ env, e.b, t)
                    ELSE \E a \in U : Has(env, e.vs[1].b, a) /\ Has(("v" :> Mn(a)) @@ env, e.b, t)

VARIABLES b, e
Init == e = <<>> /\ b \in E1({"x", "y", "g"})
Next == /\ e = <<>>
        /\ \/ \E x \in Bodies_({"x", "g"}) : e' = <<LetF(b, x)>>
           \/ b \in E1({"x"}) /\ \E x \in Bodies_({"x", "v"}) : e' = <<LetV(b, x)>>
        /\ UNCHANGED b
Spec == Init /\ [][Next]_<<b, e>>

Inst(sch, t) == MatchHead(TLCEval([g \in {sch.ps[k] : k \in DOMAIN sch.ps} |-> None]), <<<<sch.t, t>>>>).ok
(* ground types are few here: derivations about Bool and String arguments stay within them *)
Args == T0 \cup {Fun(<<Bool>>, S), Opt(S)}
Principal ==
  e # <<>> =>
    LET r == TLCEval(Typing(World, <<Def("f", "x", e[1])>>))
    IN \A a \in Args, t \in U : 
         LET fits == r.ok /\ Inst(r.types["f"], Fun(<<a>>, t)) IN
         /\ fits /\ a \in T0 => Has("x" :> Mn(a), e[1], t)
         /\ ~fits => ~Has("x" :> Mn(a), e[1], t)
=============================================================================
