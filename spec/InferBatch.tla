----------------------------- MODULE InferBatch -----------------------------
(* The types of given programs. *)
EXTENDS Infer, IOUtils, Json
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
VARIABLES i, out
Init == i \in 1..Len(Batch) /\ out = <<>>
Next == out = <<>> /\ out' = <<Typing(Batch[i].w, Batch[i].fs)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, out>>
Report == out # <<>> => PrintT(ToJson([id |-> Batch[i].id, out |-> out[1]]))
=============================================================================
