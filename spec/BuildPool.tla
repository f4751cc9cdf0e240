------------------------------ MODULE BuildPool ------------------------------
(* The scheduling algorithm of the module builder: every module has a counter of leaders still to come (plus one for
   the initial sweep); whoever brings it to zero spawns its task; a finished task publishes its result and then
   releases its followers one by one. Workers interleave arbitrarily. It must implement BuildSched. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Workers
VARIABLES p, phase, count, queue, work, sweep
(* work[w]: what worker w does: [m, step, left]; step: idle, build, publish, release *)
vars == <<p, phase, count, queue, work, sweep>>
A == INSTANCE BuildSched WITH Mode <- "all", at <- 0
Mods == 1..N
Idle == [m |-> 0, step |-> "idle", left |-> {}]
Plans == {[n |-> N, deps |-> d, bad |-> b] :
            d \in {[m \in Mods |-> CHOOSE s \in [1..Cardinality(f[m]) -> 1..N] : {s[i] : i \in DOMAIN s} = f[m]] :
                     f \in {f \in [Mods -> SUBSET Mods] : \A m \in Mods : f[m] \subseteq 1..(m - 1)}},
            b \in {<< >>} \cup {<<x>> : x \in Mods} \cup {<<x, y>> : x \in Mods, y \in Mods}}
DepsOf(m) == {p.deps[m][i] : i \in DOMAIN p.deps[m]}
Followers(m) == {k \in Mods : m \in DepsOf(k)}
Init == /\ p \in Plans /\ phase = [m \in Mods |-> "waiting"]
        /\ count = [m \in Mods |-> 1 + Cardinality({p.deps[m][i] : i \in DOMAIN p.deps[m]})]
        /\ queue = {} /\ work = [w \in 1..Workers |-> Idle] /\ sweep = 1
(* decrement, and spawn when it was the last *)
Release(m) == /\ count' = [count EXCEPT ![m] = @ - 1]
              /\ queue' = IF count[m] = 1 THEN queue \cup {m} ELSE queue
Sweep == sweep <= N /\ Release(sweep) /\ sweep' = sweep + 1 /\ UNCHANGED <<p, phase, work>>
Take(w) == /\ work[w].step = "idle" /\ \E m \in queue :
                /\ queue' = queue \ {m}
                /\ phase' = [phase EXCEPT ![m] = "building"]
                /\ work' = [work EXCEPT ![w] = [m |-> m, step |-> "build", left |-> {}]]
           /\ UNCHANGED <<p, count, sweep>>
Build(w) == /\ work[w].step = "build"
            /\ LET m == work[w].m IN
               IF m \in {p.bad[i] : i \in DOMAIN p.bad}
               THEN phase' = [phase EXCEPT ![m] = "failed"] /\ work' = [work EXCEPT ![w] = Idle]
               ELSE phase' = [phase EXCEPT ![m] = "adding"] /\ work' = [work EXCEPT ![w].step = "publish"]
            /\ UNCHANGED <<p, count, queue, sweep>>
Publish(w) == /\ work[w].step = "publish"
              /\ phase' = [phase EXCEPT ![work[w].m] = "built"]
              /\ work' = [work EXCEPT ![w] = [@ EXCEPT !.step = "release", !.left = Followers(work[w].m)]]
              /\ UNCHANGED <<p, count, queue, sweep>>
Free(w) == /\ work[w].step = "release"
           /\ IF work[w].left = {} THEN work' = [work EXCEPT ![w] = Idle] /\ UNCHANGED <<count, queue>>
              ELSE \E f \in work[w].left : Release(f) /\ work' = [work EXCEPT ![w].left = @ \ {f}]
           /\ UNCHANGED <<p, phase, sweep>>
Next == Sweep \/ \E w \in 1..Workers : Take(w) \/ Build(w) \/ Publish(w) \/ Free(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* each module is spawned once: the counter never goes below zero *)
Once == \A m \in Mods : count[m] >= 0 /\ (m \in queue => phase[m] = "waiting")
Implements == A!Abs
Finishes == <>[](A!Settled)
=============================================================================
