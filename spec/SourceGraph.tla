----------------------------- MODULE SourceGraph -----------------------------
(* Which sources a build consists of. Module paths are sequences of strings: <<package>> for a package's prelude,
   <<package, part, ...>> otherwise. A record gives the packages with their modules, the entries, and what was
   collected; the verdict says what is wrong with it ("" if nothing is). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Batch == ndJsonDeserialize(IOEnv.BATCH)
VARIABLE i
Range(s) == {s[k] : k \in DOMAIN s}
BadPart == {"", "~", ".", ".."}
None == <<"*">>
(* the module an import string names, seen from a module of package pkg *)
Named(parts, pkg) ==
  LET rest == Tail(parts)
      own == IF parts[1] = "~" THEN pkg ELSE parts[1]
  IN IF parts[1] \in {"", ".", ".."} THEN None
     ELSE IF rest = << >> \/ rest = <<"prelude">> THEN <<own>>
     ELSE IF \E k \in DOMAIN rest : rest[k] \in BadPart THEN None
     ELSE <<own>> \o rest

Builtin == <<"builtin">>
Std == <<"std">>

(* one module: m = [path, kind, nostd, imports]; kind "ok", "token" (a malformed token among well-formed forms),
   "torn" (the text cannot be read), "pp" (a bad directive), "unreadable" (not text at all) *)
Targets(m) == {<<s, Named(s, m.path[1])>> : s \in Range(m.imports)}
Good(m) == {t \in Targets(m) : t[2] # None /\ t[2] # m.path}
Declared(m) == Good(m) \cup (IF m.path # Builtin THEN {<<Builtin, Builtin>>} ELSE {}) \cup (IF ~m.nostd /\ m.path # Std THEN {<<Std, Std>>} ELSE {})
Count(m, x) == Cardinality({k \in DOMAIN m.imports : Named(m.imports[k], m.path[1]) = x})
Occurs(seq, x) == Cardinality({k \in DOMAIN seq : seq[k] = x})
Problems(m) == [bad |-> Count(m, None), self |-> Count(m, m.path) + (IF m.path = Std /\ ~m.nostd THEN 1 ELSE 0)]

Verdict(r) ==
  LET Mods == Range(r.modules)
      Find(p) == {m \in Mods : m.path = p}
      Got == Range(r.sources)
      GotAt(p) == {s \in Got : s.path = p}
      Deps(s) == {d[2] : d \in Range(s.deps)}
      (* what a source should look like *)
      Right(s) ==
        IF Find(s.path) = {} THEN s.deps = << >> /\ s.errors = <<IF s.path[1] \in Range(r.packages) THEN "ModuleNotFound" ELSE "PackageNotFound">>
        ELSE LET m == CHOOSE m \in Find(s.path) : TRUE
                 n(x) == Occurs(s.errors, x)
             IN CASE m.kind = "unreadable" -> s.deps = << >> /\ s.errors = <<"LoadFailed">>
                  [] m.kind = "torn" -> n("ParseFailed") > 0 /\ Range(s.deps) \subseteq Declared(m) \cup {<<Std, Std>>}
                  [] m.kind = "pp" -> n("PreprocessFailed") = 1 /\ Range(s.deps) \subseteq Declared(m) \cup {<<Std, Std>>}
                  [] OTHER -> /\ Range(s.deps) = Declared(m) /\ Len(s.deps) = Cardinality(Declared(m))
                              /\ s.std = ~m.nostd
                              /\ n("InvalidImportPath") = Problems(m).bad /\ n("CannotImportModuleItself") = Problems(m).self
                              /\ n("ParseFailed") = (IF m.kind = "token" THEN 1 ELSE 0)
                              /\ Len(s.errors) = Problems(m).bad + Problems(m).self + (IF m.kind = "token" THEN 1 ELSE 0)
      (* a module that could not be read may or may not tell its imports; everything else is determined *)
      Succ(p) == IF Find(p) = {} THEN {}
                 ELSE LET m == CHOOSE m \in Find(p) : TRUE
                      IN IF m.kind = "unreadable" THEN {}
                         ELSE IF m.kind \in {"torn", "pp"} THEN UNION {Deps(s) : s \in GotAt(p)}
                         ELSE {d[2] : d \in Declared(m)}
      RECURSIVE Reach(_, _)
      Reach(seen, new) == IF new = {} THEN seen ELSE LET more == UNION {Succ(p) : p \in new} \ (seen \cup new) IN Reach(seen \cup new, more)
      Wanted == Reach({}, Range(r.entries))
      Above(p) == Reach({}, Succ(p))                       \* everything p needs
      Cyclic == \E p \in Wanted : p \in Above(p)
      At(p) == CHOOSE k \in DOMAIN r.order : r.order[k] = p
  IN IF {s.path : s \in Got} # Wanted THEN "loaded: missing " \o ToString(Wanted \ {s.path : s \in Got}) \o ", excess " \o ToString({s.path : s \in Got} \ Wanted)
     ELSE IF Len(r.sources) # Cardinality(Wanted) THEN "loaded twice"
     ELSE IF \E s \in Got : ~Right(s) THEN "source " \o ToString(CHOOSE s \in Got : ~Right(s))
     ELSE IF Cyclic # (r.cycle # << >>) THEN "cyclic: " \o ToString(Cyclic)
     ELSE IF Cyclic THEN
       (IF Len(r.cycle) > 1 /\ Cardinality(Range(r.cycle)) = Len(r.cycle)
           /\ \A p \in Range(r.cycle) : {q \in Above(p) : p \in Above(q)} = Range(r.cycle) THEN "" ELSE "cycle " \o ToString(r.cycle))
     ELSE IF Range(r.order) # Wanted \/ Len(r.order) # Cardinality(Wanted) THEN "order is not a permutation"
     ELSE IF \E p \in Wanted : \E q \in Succ(p) : At(q) >= At(p) THEN "order " \o ToString(r.order)
     ELSE ""
Init == i = 0
Next == i < Len(Batch) /\ i' = i + 1 /\ PrintT(ToJson([id |-> Batch[i + 1].id, verdict |-> Verdict(Batch[i + 1])]))
Spec == Init /\ [][Next]_i
=============================================================================
