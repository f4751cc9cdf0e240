------------------------------ MODULE InitOrder ------------------------------
(* What running a program does to the top-level code of its modules. A graph is given by n modules 1..n,
   imports[m] (a sequence of modules), stmts[m] (how many top-level expressions m has) and entries (a set of modules).
   The machine works on one entry at a time; it may execute the next expression of any module the entry needs
   all of whose imports are through. Nothing is said about the order of entries or of unrelated modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Mode    \* Mode: "all" explores every graph with N modules, "trace" follows recorded executions

Range(s) == {s[i] : i \in DOMAIN s}
Batch == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.BATCH) ELSE << >>

VARIABLES g, done, active, over, at
(* g: the graph; done[m]: executed expressions of m; active: the entry being worked on (0: none); over: finished entries; at: consumed events *)
vars == <<g, done, active, over, at>>

Mods == 1..g.n
RECURSIVE Below(_, _)
Below(gr, ms) == LET more == ms \cup UNION {Range(gr.imports[m]) : m \in ms} IN IF more = ms THEN ms ELSE Below(gr, more)
Needs == Below(g, {active})
Through(m) == done[m] = g.stmts[m]
Can(m) == m \in Needs /\ ~Through(m) /\ \A d \in Below(g, Range(g.imports[m])) : Through(d)

Graphs == {[n |-> N, imports |-> [m \in 1..N |-> i[m]], stmts |-> s, entries |-> e, id |-> 0, trace |-> << >>] :
             i \in {f \in [1..N -> UNION {[1..k -> 1..N] : k \in 0..2}] :
                      \A m \in 1..N : Range(f[m]) \subseteq 1..(m - 1) /\ Cardinality(Range(f[m])) = Len(f[m])},
             s \in [1..N -> 1..2],
             e \in SUBSET (1..N) \ {{}}}
Traces == {Batch[i] : i \in DOMAIN Batch}

Init == /\ g \in (IF Mode = "all" THEN Graphs ELSE Traces)
        /\ done = [m \in 1..g.n |-> 0] /\ active = 0 /\ over = {} /\ at = 0
Entries == IF Mode = "all" THEN g.entries ELSE Range(g.entries)
Pick(e) == active = 0 /\ e \in Entries \ over /\ active' = e /\ UNCHANGED <<g, done, over, at>>
Leave == active # 0 /\ (\A m \in Needs : Through(m)) /\ active' = 0 /\ over' = over \cup {active} /\ UNCHANGED <<g, done, at>>
Step(m) == /\ active # 0 /\ Can(m)
           /\ Mode = "trace" => at < Len(g.trace) /\ g.trace[at + 1] = <<m, done[m] + 1>>
           /\ done' = [done EXCEPT ![m] = @ + 1] /\ at' = at + 1 /\ UNCHANGED <<g, active, over>>
Accept == /\ Mode = "trace" /\ over = Entries /\ at = Len(g.trace) /\ at >= 0
          /\ PrintT(ToJson([id |-> g.id, ok |-> TRUE]))
          /\ at' = -1 /\ UNCHANGED <<g, done, active, over>>
Next == (\E e \in Mods : Pick(e)) \/ Leave \/ (\E m \in Mods : Step(m)) \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* nothing runs too early, twice, or without being needed; and in the end everything needed has run *)
InOrder == \A m \in Mods : done[m] > 0 => \A d \in Range(g.imports[m]) : Through(d)
OnlyNeeded == \A m \in Mods : done[m] > 0 => m \in Below(g, Entries)
Never2 == \A m \in Mods : done[m] <= g.stmts[m]
Complete == over = Entries => \A m \in Below(g, Entries) : Through(m)
Terminates == <>(over = Entries)
=============================================================================
