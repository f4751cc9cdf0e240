----------------------------- MODULE NamesLaws -----------------------------
(* Laws of port items, for all relations, patterns and names within small bounds. *)
EXTENDS Ports, TLC
CONSTANTS L, R
Strs(a, n) == UNION {[1..k -> a] : k \in 1..n}
Pats == {<<"_">>} \cup {<<"_">> \o s : s \in Strs({"a", "b"}, 2)} \cup {s \o <<"_">> : s \in Strs({"a", "b"}, 2)}
Words == Strs({"a", "b"}, L)
Rels == {r \in SUBSET [n : Words, c : 1..2] : Cardinality(r) <= R}
VARIABLES rel, t, n1
Init == rel = {} /\ t = <<"_">> /\ n1 = <<"_">>
Next == rel = {} /\ rel' \in Rels /\ t' \in Pats /\ n1' \in Pats
Spec == Init /\ [][Next]_<<rel, t, n1>>
Item(a, b) == [t |-> a, n |-> b]
(* without a new name a pattern selects *)
Selection == Take(Item(t, <<>>), rel) = {e \in rel : Selects(t, e.n)}
(* renaming there and back, and renaming in two steps, is the same as in one: re-exports compose *)
There == Take(Item(n1, t), Take(Item(t, n1), rel)) = Take(Item(t, <<>>), rel)
Compose == \A n2 \in Pats : Take(Item(n1, n2), Take(Item(t, n1), rel)) = Take(Item(t, n2), rel)
(* renaming makes no clashes and hides none *)
Faithful == Cardinality(Take(Item(t, n1), rel)) = Cardinality(Take(Item(t, <<>>), rel))
(* a wildcard stands for at least one letter *)
Nonempty == \A e \in rel : Selects(t, e.n) => Part(t, e.n) # <<>>
(* plain items *)
Plain == \A e \in rel : \A w \in Words : [n |-> w, c |-> e.c] \in Take(Item(e.n, w), rel)

============================================================================
