------------------------------- MODULE PatGen -------------------------------
(* Exhaustive enumeration of small matches: every sequence of at most N     *)
(* clauses over all patterns of one small type.  Each state is one match,    *)
(* printed with the verdict the model reaches for it.                        *)
EXTENDS PatDefs, Json
CONSTANTS N, Scen

Lit(c) == [k |-> "lit", c |-> c, ps |-> <<>>]
W == [k |-> "_", c |-> "_", ps |-> <<>>]
Con(c, ps) == [k |-> "con", c |-> c, ps |-> ps]

Types == [ Bool |-> <<[c |-> "F", args |-> <<>>], [c |-> "T", args |-> <<>>]>>,
           Int  |-> <<>>,
           Opt  |-> <<[c |-> "None", args |-> <<>>], [c |-> "Some", args |-> <<"Bool">>]>>,
           OptI |-> <<[c |-> "NoneI", args |-> <<>>], [c |-> "SomeI", args |-> <<"Int">>]>>,
           Pair |-> <<[c |-> "P", args |-> <<"Bool", "Bool">>]>>,
           Mix  |-> <<[c |-> "A", args |-> <<>>], [c |-> "B", args |-> <<"Bool", "Int">>], [c |-> "C", args |-> <<"Bool">>]>>,
           OP   |-> <<[c |-> "OP", args |-> <<"Opt", "Bool">>]>>,
           RGB  |-> <<[c |-> "R", args |-> <<>>], [c |-> "G", args |-> <<>>], [c |-> "Bl", args |-> <<>>]>>,
           PR   |-> <<[c |-> "PR", args |-> <<"RGB", "RGB">>]>> ]
Lits == {"0", "1"}

RECURSIVE Pats(_)
Pats(t) == {W} \cup
  (IF Types[t] = <<>> THEN {Lit(c) : c \in Lits}
   ELSE UNION { LET con == Types[t][i] IN
                {Con(con.c, ps) : ps \in Tuples([j \in 1..Len(con.args) |-> Pats(con.args[j])])}
                : i \in 1..Len(Types[t]) })

VARIABLES rows, verdict, at
vars == <<rows, verdict, at>>

Uncovered(rs) == LET U == RowVals(Types, <<Scen>>, {rs[n] : n \in 1..Len(rs)})
                 IN {v \in U : \A n \in 1..Len(rs) : ~RowFits(rs[n], v)}
(* does clause r add anything after rs? *)
Adds(rs, r) == LET U == RowVals(Types, <<Scen>>, {rs[n] : n \in 1..Len(rs)} \cup {r})
               IN \E v \in U : RowFits(r, v) /\ \A n \in 1..Len(rs) : ~RowFits(rs[n], v)

Init == rows = <<>> /\ verdict = "missing" /\ at = 0
Add(p) == LET r == <<p>> IN
          /\ verdict # "useless" /\ Len(rows) < N
          /\ rows' = Append(rows, r)
          /\ at' = Len(rows')
          /\ verdict' = IF ~Adds(rows, r) THEN "useless"
                        ELSE IF Uncovered(rows') = {} THEN "ok" ELSE "missing"
Next == \E p \in Pats(Scen) : Add(p)
Spec == Init /\ [][Next]_vars

Emit == rows = <<>> \/ PrintT(ToJson([rows |-> rows, verdict |-> verdict, at |-> at]))

(* once exhaustive, whatever is added is useless; a leading catch-all makes everything after it useless *)
Complete == verdict = "ok" => \A p \in Pats(Scen) : ~Adds(rows, <<p>>)
=============================================================================
