------------------------------- MODULE Ports -------------------------------
(* Import and export items over relations between names and constructs. *)
EXTENDS Integers, Sequences, FiniteSets

Drop(s, n) == SubSeq(s, n + 1, Len(s))
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* port patterns *)
Wild == "_"
IsWild(t) == t # <<>> /\ (t[1] = Wild \/ t[Len(t)] = Wild)
Before(t) == IF t = <<Wild>> \/ t[1] = Wild THEN <<>> ELSE SubSeq(t, 1, Len(t) - 1)
After(t) == IF t = <<Wild>> \/ t[1] # Wild THEN <<>> ELSE Drop(t, 1)
(* the part of the name n that the wildcard of the pattern t stands for; never empty *)
Selects(t, n) == Len(n) > Len(Before(t)) + Len(After(t)) /\ HasPrefix(n, Before(t)) /\ HasSuffix(n, After(t))
Part(t, n) == SubSeq(n, Len(Before(t)) + 1, Len(n) - Len(After(t)))
Fill(t, x) == Before(t) \o x \o After(t)

(* what a list of port items [t, n] (target, new name or <<>>) takes from a relation of [n, c] *)
NewName(i) == IF i.n = <<>> THEN i.t ELSE i.n
Take(i, rel) == IF IsWild(i.t)
  THEN (IF IsWild(NewName(i)) THEN {[n |-> Fill(NewName(i), Part(i.t, e.n)), c |-> e.c] : e \in {e \in rel : Selects(i.t, e.n)}} ELSE {})
  ELSE {[n |-> NewName(i), c |-> e.c] : e \in {e \in rel : e.n = i.t}}
TakeAll(items, rel) == UNION {Take(items[j], rel) : j \in DOMAIN items}
============================================================================
