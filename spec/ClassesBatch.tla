---------------------------- MODULE ClassesBatch ----------------------------
(* What given programs lack or print. *)
EXTENDS Classes, IOUtils, Json
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
VARIABLES i, out
Init == i \in 1..Len(Batch) /\ out = <<>>
Next == out = <<>> /\ out' = <<Judge(Batch[i].w)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, out>>
Report == out # <<>> => PrintT(ToJson([id |-> Batch[i].id, out |-> out[1]]))
=============================================================================
