------------------------------ MODULE PatMatch ------------------------------
(* A match is examined clause by clause: `unc` are the values no clause so  *)
(* far accepts.  A clause fitting none of them is useless and ends the      *)
(* examination; after the last clause, leftover values mean non-exhaustive. *)
(* Each record of the batch is one initial state (a matrix of patterns and  *)
(* the verdict the implementation gave); the final state judges it.         *)
EXTENDS PatDefs, Json, IOUtils

Batch == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES rec, i, unc, verdict
vars == <<rec, i, unc, verdict>>

Rows == rec.rows
SeqToSet(s) == {s[n] : n \in 1..Len(s)}
All == RowVals(rec.types, rec.cols, SeqToSet(Rows) \cup SeqToSet(rec.got.rows))

Init == /\ rec \in SeqToSet(Batch)
        /\ i = 1
        /\ unc = All
        /\ verdict = "running"

Clause == /\ verdict = "running" /\ i <= Len(Rows)
          /\ LET new == {v \in unc : RowFits(Rows[i], v)} IN
             IF new = {} THEN verdict' = "useless" /\ UNCHANGED <<i, unc>>
             ELSE verdict' = verdict /\ i' = i + 1 /\ unc' = unc \ new
          /\ UNCHANGED rec
End == /\ verdict = "running" /\ i > Len(Rows)
       /\ verdict' = IF unc = {} THEN "ok" ELSE "missing"
       /\ UNCHANGED <<rec, i, unc>>

(* What the implementation reported must be what the model concluded. *)
Agrees == /\ rec.got.verdict = verdict
          /\ verdict = "useless" /\ rec.full => rec.got.rows = <<Rows[i]>>
          /\ verdict = "missing" /\ rec.full =>
               /\ Len(rec.got.rows) > 0
               /\ \A r \in SeqToSet(rec.got.rows) : \E v \in unc : RowFits(r, v)

Report == /\ verdict \notin {"running", "done"}
          /\ PrintT(ToJson([id |-> rec.id, verdict |-> verdict, at |-> i,
                            left |-> Cardinality(unc), ok |-> Agrees]))
          /\ verdict' = "done"
          /\ UNCHANGED <<rec, i, unc>>

Next == Clause \/ End \/ Report
Spec == Init /\ [][Next]_vars

(* the examined clauses and `unc` partition the values at every step *)
Partition == \A v \in All : (v \in unc) <=> ~\E j \in 1..(i-1) : RowFits(Rows[j], v)
=============================================================================
