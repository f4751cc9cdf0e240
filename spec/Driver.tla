------------------------------- MODULE Driver -------------------------------
(* The compiler driver as a state machine: a command line and a small package on disk, the phases it goes through,
   and what can be observed at its end. A configuration gives each dimension a value (0 is the ordinary one);
   all configurations with at most Depth unusual dimensions are explored, and each run is one behaviour. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Slice, Slices

Values == [entry |-> 10, ending |-> 4, output |-> 3, run |-> 1, args |-> 3, backend |-> 4, feature |-> 3, package |-> 7,
           imports |-> 3, opt |-> 1, verbose |-> 1, clang |-> 2, dup |-> 1]
Dims == DOMAIN Values
Base == [d \in Dims |-> 0]
Ones == {[Base EXCEPT ![d] = v] : d \in Dims, v \in 1..10}
Valid(c) == \A d \in Dims : c[d] <= Values[d]
Over(c, e) == [d \in Dims |-> IF e[d] # 0 THEN e[d] ELSE c[d]]
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {Base} ELSE Upto(n - 1) \cup {Over(c, e) : c \in Upto(n - 1), e \in {x \in Ones : Valid(x)}}
RECURSIVE SumOf(_, _)
SumOf(c, ds) == IF ds = {} THEN 0 ELSE LET d == CHOOSE x \in ds : TRUE IN (c[d] + 7 * SumOf(c, ds \ {d})) % 1009
Configs == {c \in Upto(Depth) : SumOf(c, Dims) % Slices = Slice}

VARIABLES cfg, phase, out, status, made, first   (* first: which of two unrelated entry modules is initialised first *)
vars == <<cfg, phase, out, status, made, first>>

(* ------------------------------------------------------ meaning of values *)
(* entry: 0 main, 1 main.llrl, 2 sub/main, 3 missing, 4 ill-typed, 5 in a cycle, 6 illegal name, 7 main and other, 8 main twice,
          9 reads badly (unclosed parenthesis), 10 main and missing *)
(* ending: 0 falls off the end, 1 exit 7, 2 exit 0 halfway, 3 panic, 4 exit 300 *)
(* output: 0 none, 1 out, 2 dir/out, 3 nodir/out *)
(* args: 0 none, 1..3 given *)
(* backend: 0 chibi, 1 llvm, 2 default, 3 not given, 4 bogus *)
(* feature: bit 0: f1, bit 1: f2 *)
(* package: 0 none, 1 p:pk, 2 pk, 3 std:pk, 4 a:b:c, 5 ~:pk, 6 p:pk and p:pk, 7 p:nodir *)
(* imports: 0 none, 1 p/lib, 2 pk/lib, 3 p (its prelude) *)
(* clang: 0 none, 1 a harmless option, 2 a missing library *)
(* dup: flags given twice where that is allowed (features) *)
Args == <<<< >>, <<"a">>, <<"-x", "a b", "--run", "--", "", "\\">>, <<"-O", "-o", "é">>>>[cfg.args + 1]
Features == <<{}, {"f1"}, {"f2"}, {"f1", "f2"}>>[cfg.feature + 1]

BadUsage == cfg.entry = 6 \/ cfg.backend = 4 \/ cfg.package \in {3, 4, 5, 6}
HasP == cfg.package \in {1, 7}
Unfound == \/ cfg.entry \in {3, 5, 9, 10}
           \/ cfg.imports \in {1, 3} /\ cfg.package # 1
           \/ cfg.imports = 2 /\ cfg.package # 2
IllTyped == cfg.entry = 4
Unlinkable == cfg.output = 3 \/ cfg.clang = 2
RunNow == cfg.run = 1 \/ cfg.output = 0 \/ Len(Args) > 0

Greeting == IF cfg.imports = 0 THEN << >> ELSE IF cfg.imports = 3 THEN <<"from pk prelude">> ELSE <<"from pk lib">>
(* what the program does: the lines it prints, then the way it ends *)
Lines ==
  LET head == Greeting \o <<"main">> \o (IF "f1" \in Features THEN <<"f1">> ELSE << >>) \o (IF "f2" \in Features THEN <<"f2">> ELSE <<"no f2">>)
      args == [j \in DOMAIN Args |-> "arg " \o Args[j]]
      last == IF cfg.ending = 0 THEN <<"end">> \o (IF cfg.entry = 7 /\ first = "main" THEN <<"other">> ELSE << >>) ELSE << >>
  IN (IF first = "other" THEN <<"other">> ELSE << >>) \o head \o args \o <<"stdin">> \o last
Ends == <<"0", "7", "0", "killed", "44">>[cfg.ending + 1]

Init == cfg \in Configs /\ phase = "options" /\ out = << >> /\ status = "none" /\ made = FALSE
        /\ first \in (IF cfg.entry = 7 THEN {"main", "other"} ELSE {"main"})
Fail == phase' = "end" /\ status' = "failure" /\ UNCHANGED <<cfg, first, out, made>>
Go(p) == phase' = p /\ UNCHANGED <<cfg, first, out, status, made>>
Options == phase = "options" /\ IF BadUsage THEN Fail ELSE Go("collect")
Collect == phase = "collect" /\ IF Unfound THEN Fail ELSE Go("build")
Build == phase = "build" /\ IF IllTyped THEN Fail ELSE Go("link")
Link == phase = "link" /\ IF Unlinkable THEN Fail ELSE phase' = "made" /\ made' = TRUE /\ UNCHANGED <<cfg, first, out, status>>
Start == phase = "made" /\ IF RunNow THEN Go("running") ELSE phase' = "end" /\ status' = "success" /\ UNCHANGED <<cfg, first, out, made>>
Say == phase = "running" /\ Len(out) < Len(Lines) /\ out' = Append(out, Lines[Len(out) + 1]) /\ UNCHANGED <<cfg, first, phase, status, made>>
Exit == /\ phase = "running" /\ Len(out) = Len(Lines)
        /\ phase' = "end" /\ UNCHANGED <<cfg, first, out, made>>
        /\ status' = (IF Ends = "killed" THEN "failure" ELSE IF Ends = "0" THEN "success" ELSE Ends)
Report == phase = "end" /\ phase' = "reported" /\ UNCHANGED <<cfg, first, out, status, made>>
          /\ PrintT(ToJson([cfg |-> cfg, out |-> out, status |-> status, made |-> made /\ cfg.output # 0,
                            ran |-> made /\ RunNow, args |-> Args, lines |-> Lines, ends |-> Ends]))
Next == Options \/ Collect \/ Build \/ Link \/ Start \/ Say \/ Exit \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* nothing runs unless it was linked, a failing phase leaves no success, and every run ends *)
Safe == /\ (out # << >> => made)
        /\ (status = "success" => made)
        /\ (phase \in {"end", "reported"} => status # "none")
Ended == <>(phase = "reported")
=============================================================================
