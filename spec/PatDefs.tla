------------------------------ MODULE PatDefs ------------------------------
(* Patterns, the values they can tell apart, and matching.                  *)
(* A pattern is [k |-> "_"] | [k |-> "con", c, ps] | [k |-> "lit", c];       *)
(* a value is [c |-> head, vs |-> parts]; HOLE is a part that no pattern in *)
(* play looks into (any inhabitant); FRESH a literal no pattern mentions.   *)
(* Types == [type name -> sequence of [c |-> con, args |-> type names]];     *)
(* a type mapped to the empty sequence has infinitely many literals.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

HOLE  == [c |-> "*", vs |-> <<>>]
FRESH == [c |-> "#fresh", vs |-> <<>>]

IsWild(p) == p.k = "_"

(* all tuples <<x1..xn>> with xi \in S[i] *)
RECURSIVE Tuples(_)
Tuples(S) == IF S = <<>> THEN {<<>>}
             ELSE { <<h>> \o t : h \in Head(S), t \in Tuples(Tail(S)) }

(* The values of type t up to what the patterns in P can distinguish. *)
RECURSIVE Vals(_, _, _)
Vals(types, t, P) ==
  LET heads == {p \in P : ~IsWild(p)} IN
  IF heads = {} THEN {HOLE}
  ELSE IF types[t] = <<>>
       THEN {[c |-> p.c, vs |-> <<>>] : p \in heads} \cup {FRESH}
       ELSE UNION { LET con == types[t][i]
                        at(j) == {p.ps[j] : p \in {q \in heads : q.c = con.c}}
                    IN {[c |-> con.c, vs |-> vs] :
                          vs \in Tuples([j \in 1..Len(con.args) |-> Vals(types, con.args[j], at(j))])}
                    : i \in 1..Len(types[t]) }

RowVals(types, cols, rows) ==
  Tuples([j \in 1..Len(cols) |-> Vals(types, cols[j], {r[j] : r \in rows})])

RECURSIVE Fits(_, _)
Fits(p, v) ==
  \/ IsWild(p)
  \/ /\ p.k = "lit" /\ v.c = p.c
  \/ /\ p.k = "con" /\ v.c = p.c
     /\ \A j \in 1..Len(p.ps) : Fits(p.ps[j], v.vs[j])

RowFits(r, vs) == \A j \in 1..Len(r) : Fits(r[j], vs[j])
=============================================================================
