----------------------------- MODULE KindsBatch -----------------------------
(* The kinds of given programs. *)
EXTENDS Kinds, IOUtils, Json
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
VARIABLES i, out
Init == i \in 1..Len(Batch) /\ out = <<>>
Next == out = <<>> /\ out' = <<Kinding(Batch[i].ms)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, out>>
Report == out # <<>> => PrintT(ToJson([id |-> Batch[i].id, out |-> out[1]]))
=============================================================================
