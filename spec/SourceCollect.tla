---------------------------- MODULE SourceCollect ----------------------------
(* The collector: tasks load modules concurrently; before a module is spawned its path is looked up in and entered
   into a shared set under one lock. Every graph over N modules, every interleaving of the workers. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT N
VARIABLES deps, entries, ongoing, tasks, loads, result
(* tasks: records [m, step, left] of running tasks; loads[m]: how often m was loaded *)
vars == <<deps, entries, ongoing, tasks, loads, result>>
Mods == 1..N
Init == /\ deps \in [Mods -> SUBSET Mods] /\ entries \in (SUBSET Mods) \ {{}}
        /\ ongoing = {} /\ tasks = {[m |-> 0, step |-> "deps", left |-> entries]} /\ loads = [m \in Mods |-> 0] /\ result = {}
Load(t) == /\ t.step = "load"
           /\ loads' = [loads EXCEPT ![t.m] = @ + 1]
           /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.step = "deps", !.left = deps[t.m]]}
           /\ UNCHANGED <<deps, entries, ongoing, result>>
Collect(t, d) == /\ t.step = "deps" /\ d \in t.left
                 /\ ongoing' = ongoing \cup {d}
                 /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.left = @ \ {d}]}
                             \cup (IF d \in ongoing THEN {} ELSE {[m |-> d, step |-> "load", left |-> {}]})
                 /\ UNCHANGED <<deps, entries, loads, result>>
Finish(t) == /\ t.step = "deps" /\ t.left = {}
             /\ tasks' = tasks \ {t} /\ result' = result \cup ({t.m} \ {0})
             /\ UNCHANGED <<deps, entries, ongoing, loads>>
Next == \E t \in tasks : Load(t) \/ Finish(t) \/ \E d \in t.left : Collect(t, d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Reach(_)
Reach(s) == LET more == s \cup UNION {deps[m] : m \in s} IN IF more = s THEN s ELSE Reach(more)
Once == \A m \in Mods : loads[m] <= 1
Exact == tasks = {} => result = Reach(entries) /\ \A m \in result : loads[m] = 1
Ends == <>(tasks = {})
=============================================================================
