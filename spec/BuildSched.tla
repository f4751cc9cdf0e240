------------------------------ MODULE BuildSched ------------------------------
(* What building a set of modules in parallel may look like from outside: which module is worked on, handed to the
   back end, and how it ends. A plan p gives n modules, deps[m] (direct dependencies, a sequence), bad (those that
   fail by themselves). In mode "trace" the machine follows the events a recording back end saw. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode
VARIABLES p, phase, at   \* p: the plan itself, in mode "trace" its number in the batch
(* phase[m]: waiting, building, adding, built, failed *)
vars == <<p, phase, at>>
Batch == ndJsonDeserialize(IOEnv.BATCH)
P == IF Mode = "trace" THEN Batch[p] ELSE p
Range(s) == {s[i] : i \in DOMAIN s}
Mods == 1..P.n
Deps(m) == Range(P.deps[m])
Bad == Range(P.bad)
RECURSIVE Below(_, _)
Below(q, ms) == LET more == ms \cup UNION {Range(q.deps[m]) : m \in ms} IN IF more = ms THEN ms ELSE Below(q, more)
(* the modules that are never taken up because something they need fails *)
Blocked(q) == {m \in 1..q.n : Below(q, Range(q.deps[m])) \cap Range(q.bad) # {}}

Ready(m) == phase[m] = "waiting" /\ \A d \in Deps(m) : phase[d] = "built"
Set(m, x) == phase' = [phase EXCEPT ![m] = x] /\ UNCHANGED p
Start(m) == Ready(m) /\ Set(m, "building")
(* while m is built it may run macros of what it depends on *)
Macro(m, d) == phase[m] = "building" /\ d \in Below(P, Deps(m)) /\ phase[d] = "built" /\ UNCHANGED <<p, phase>>
Hand(m) == phase[m] = "building" /\ m \notin Bad /\ Set(m, "adding")
Handed(m) == phase[m] = "adding" /\ Set(m, "built")
Fail(m) == phase[m] = "building" /\ m \in Bad /\ Set(m, "failed")

Event == P.trace[at + 1]
Follow ==
  at >= 0 /\ at < Len(P.trace) /\ LET m == Event.mod IN
             /\ at' = at + 1
             /\ CASE Event.what = "macro" -> Macro(m, Event.of)
                  [] Event.what = "add" -> Hand(m) /\ (Event.entry <=> m \in Range(P.entries))
                  [] OTHER -> Handed(m)
(* modules are taken up without a trace; doing so as early as possible loses nothing *)
Eager == \E m \in Mods : Ready(m)
Silent == Eager /\ phase' = [m \in Mods |-> IF Ready(m) THEN "building" ELSE phase[m]] /\ UNCHANGED <<p, at>>
Accept == /\ ~Eager /\ at = Len(P.trace) /\ at' = -1 /\ UNCHANGED <<p, phase>>
          /\ Range(P.built) = {m \in Mods : phase[m] = "built"} /\ Len(P.built) = Cardinality(Range(P.built))
          /\ \A m \in Mods : phase[m] \in {"built", "waiting"} \/ (phase[m] = "building" /\ m \in Bad)
          /\ Range(P.failed) = {m \in Mods : phase[m] = "building"}
          /\ Range(P.skipped) = {m \in Mods : phase[m] = "waiting"}
          /\ Len(P.failed) + Len(P.skipped) + Len(P.built) = P.n
          /\ PrintT(ToJson([id |-> P.id, ok |-> TRUE]))
TraceInit == p \in DOMAIN Batch /\ at = 0 /\ phase = [m \in 1..Batch[p].n |-> "waiting"]
TraceSpec == TraceInit /\ [][Silent \/ (~Eager /\ Follow) \/ Accept]_vars

AbsNext == \E m \in Mods : Start(m) \/ Hand(m) \/ Handed(m) \/ Fail(m)
Abs == [][AbsNext]_<<p, phase>>
Settled == \A m \in Mods : phase[m] = IF m \in Blocked(P) THEN "waiting" ELSE IF m \in Bad THEN "failed" ELSE "built"
=============================================================================
