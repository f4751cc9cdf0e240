----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of operations on paths, files and directories must be   *)
(* behaviours of Files.tla.  Blind records are only examined for operations    *)
(* that are not specified where they stand.                                   *)
EXTENDS Files
Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, pc, S, skips, ok
vars == <<r, pc, S, skips, ok>>
Rc == Recs[r]
Kind(k) == IF k = "d" THEN Dir ELSE Link
Tree0(t) == FoldLeft(LAMBDA f, e : f @@ (e.at :> IF e.t = "f" THEN [t |-> "f", i |-> e.i] ELSE Kind(e.t)), (<< >> :> Dir), t)
Init == /\ r \in DOMAIN Recs /\ pc = 0 /\ skips = << >> /\ ok = TRUE
        /\ S = [tree |-> Tree0(Recs[r].tree), data |-> Recs[r].data, fs |-> [h \in 1..4 |-> ClosedFile], ds |-> [h \in 1..2 |-> ClosedDir]]
Say(n) == PrintT(ToJson([id |-> Rc.id, n |-> n, skips |-> skips]))
Next ==
  /\ ok /\ pc <= Len(Rc.ops) /\ r' = r
  /\ IF pc = Len(Rc.ops) THEN pc' = pc + 1 /\ Say(pc) /\ UNCHANGED <<S, skips, ok>>
     ELSE LET o == Rc.ops[pc + 1]
          IN IF Rc.blind
             THEN LET d == Do(S, Rc.cwd, o)
                  IN pc' = pc + 1 /\ ok' = TRUE /\ (IF d.k = "any" THEN skips' = Append(skips, pc) /\ S' = S ELSE skips' = skips /\ S' = TLCEval(d.s))
             ELSE LET t == TLCEval(Step(S, Rc.cwd, o, Rc.outs[pc + 1]))
                  IN skips' = skips /\ IF t = << >> THEN ok' = FALSE /\ Say(pc) /\ UNCHANGED <<pc, S>> ELSE pc' = pc + 1 /\ S' = t[1] /\ ok' = TRUE
Spec == Init /\ [][Next]_vars
(* the tree is one, nothing refers to contents that do not exist, positions lie inside *)
Sound ==
  /\ \A x \in DOMAIN S.tree : x # << >> => Parent(x) \in DOMAIN S.tree /\ S.tree[Parent(x)].t = "d"
  /\ \A x, y \in DOMAIN S.tree : S.tree[x].t = "f" /\ S.tree[y].t = "f" /\ S.tree[x].i = S.tree[y].i => x = y
  /\ \A x \in DOMAIN S.tree : S.tree[x].t = "f" => S.tree[x].i \in DOMAIN S.data
  /\ \A h \in 1..4 : S.fs[h].open => S.fs[h].i \in 0..Len(S.data) /\ (S.fs[h].i > 0 => S.fs[h].pos <= Len(S.data[S.fs[h].i]))
  /\ \A h \in 1..2 : S.ds[h].open /\ ~S.ds[h].dirty => S.ds[h].left \subseteq Kids(S.tree, S.ds[h].at)
=============================================================================
