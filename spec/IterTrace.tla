------------------------------ MODULE IterTrace ------------------------------
(* Recorded histories of iterators, one consumer per step: the recorded       *)
(* output of each must be the log the network of Iter.tla produces.            *)
EXTENDS Iter
Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, pc, S, ok
vars == <<r, pc, S, ok>>
R == Recs[r]
Init == /\ r \in DOMAIN Recs /\ pc = 0 /\ ok = TRUE /\ S = Start(Recs[r].nodes)
Next ==
  /\ ok /\ pc <= Len(R.ops) /\ r' = r
  /\ IF pc = Len(R.ops) THEN pc' = pc + 1 /\ PrintT(ToJson([id |-> R.id, n |-> pc, want |-> << >>])) /\ UNCHANGED <<S, ok>>
     ELSE LET T == TLCEval(Consume(R.nodes, R.ops[pc + 1], S))
          IN IF T.log = R.outs[pc + 1] THEN pc' = pc + 1 /\ S' = [T EXCEPT !.log = << >>] /\ ok' = TRUE
             ELSE ok' = FALSE /\ PrintT(ToJson([id |-> R.id, n |-> pc, want |-> T.log])) /\ UNCHANGED <<pc, S>>
Spec == Init /\ [][Next]_vars
(* A source gives its values away once and in order. *)
InOrder == \A i \in DOMAIN R.nodes : R.nodes[i].k = 1 => S.st[i][1] \in 0..Len(R.nodes[i].v)
=============================================================================
