------------------------------- MODULE Names -------------------------------
(* Names, scopes, imports and exports of a set of modules. Every declaration and every binder is a
   construct, known by a number; a name is a sequence of letters. A module's top level is a relation
   between names and constructs: what its imports select from the exports of other modules, what is
   imported implicitly from the standard module (number 1) under the names no explicit import has taken,
   and what it declares. The module is well-formed when that relation is a function, every name used
   means something of the right kind, and its exports are a function too. What a name means inside an
   expression is decided by the binders around it, innermost first, then by the top level.
   The specification computes for each module its errors, the meaning of every use and its exports. *)
EXTENDS Ports, TLC, Json, IOUtils

Error(v, k, n) == [v |-> v, k |-> k, n |-> n]
PortErrors(items, rel, what) == UNION {LET i == items[j] IN
   IF IsWild(i.t) THEN (IF IsWild(NewName(i)) THEN {} ELSE {Error("WildcardPortNameMustBeWildcard", "", <<>>)})
   ELSE IF \E e \in rel : e.n = i.t THEN {} ELSE {Error("Unresolved", what, i.t)} : j \in DOMAIN items}
NamesOf(rel) == {e.n : e \in rel}
Clashes(rel, v) == {Error(v, "", n) : n \in {n \in NamesOf(rel) : Cardinality({e.c : e \in {e \in rel : e.n = n}}) > 1}}

(* the top level of module m, given the exports of the modules before it *)
Imported(m, exp) == UNION {TakeAll(m.imports[j].items, exp[m.imports[j].m]) : j \in DOMAIN m.imports}
Implicit(m, exp) == IF m.std THEN {e \in exp[1] : e.n \notin NamesOf(Imported(m, exp))} ELSE {}
Declared(m) == {[n |-> m.decls[j].n, c |-> m.decls[j].c] : j \in DOMAIN m.decls}
ImportErrors(m, exp) == UNION {PortErrors(m.imports[j].items, exp[m.imports[j].m], "import-target") : j \in DOMAIN m.imports}

(* expressions. kind: construct -> kind; env: the binders in scope, innermost first *)
Fits == [value |-> {"fun", "var", "lfun", "con"}, type |-> {"type", "tparam"}, constructor |-> {"con"}, class |-> {"class"}]
None == [u |-> {}, e |-> {}]
Both(a, b) == [u |-> a.u \cup b.u, e |-> a.e \cup b.e]
Use(what, n, s, env, top, kind) ==
  LET near == {j \in DOMAIN env : env[j].n = n}
      far == {e.c : e \in {e \in top : e.n = n}}
      cs == IF near # {} THEN {env[CHOOSE j \in near : \A i \in near : j <= i].c} ELSE far
      good == {c \in cs : kind[c] \in Fits[what]}
  IN [u |-> {[s |-> s, c |-> c] : c \in good}, e |-> IF good = {} THEN {Error("Unresolved", what, n)} ELSE {}]
(* opening a scope with binders bs: a name may be bound once *)
Open(bs, env) == [j \in DOMAIN bs |-> [n |-> bs[j].n, c |-> bs[j].c]] \o env
Dup(bs) == [u |-> {}, e |-> {Error("DuplicatedIdentifier", "", bs[j].n) : j \in {j \in DOMAIN bs : \E i \in 1..(j - 1) : bs[i].n = bs[j].n}}]

RECURSIVE Mean(_, _, _, _), MeanAll(_, _, _, _)
MeanAll(xs, env, top, kind) == IF xs = <<>> THEN None
  ELSE Both(TLCEval(Mean(xs[1], env, top, kind)), TLCEval(MeanAll(Tail(xs), env, top, kind)))
RECURSIVE Inits(_, _, _, _), Funs(_, _, _, _), Sig(_, _, _, _)
Inits(vs, env, top, kind) == IF vs = <<>> THEN None
  ELSE Both(TLCEval(MeanAll(vs[1].init, env, top, kind)), TLCEval(Inits(Tail(vs), env, top, kind)))
Funs(fs, env, top, kind) == IF fs = <<>> THEN None
  ELSE Both(Both(Dup(fs[1].ps), TLCEval(MeanAll(fs[1].body, Open(fs[1].ps, env), top, kind))), TLCEval(Funs(Tail(fs), env, top, kind)))
(* the types of the parameters of a signature *)
Sig(ps, env, top, kind) == IF ps = <<>> THEN None
  ELSE Both(IF ps[1].tn = <<>> THEN None ELSE Use("type", ps[1].tn, ps[1].s, env, top, kind), TLCEval(Sig(Tail(ps), env, top, kind)))
Mean(x, env, top, kind) ==
  CASE x.k = "val" -> Use("value", x.n, x.s, env, top, kind)
    [] x.k = "typ" -> Use("type", x.n, x.s, env, top, kind)
    [] x.k = "decon" -> Both(Use("constructor", x.n, x.s, env, top, kind), MeanAll(x.body, Open(x.vs, env), top, kind))
    [] x.k = "match" -> Both(Dup(x.vs), MeanAll(x.body, Open(x.vs, env), top, kind))
    (* local functions see each other and themselves, variables are seen in the body only *)
    [] x.k = "let" -> LET rec == Open(x.fs, env) all == x.vs \o x.fs
                      IN Both(Both(Dup(all), Both(Inits(x.vs, rec, top, kind), Funs(x.fs, rec, top, kind))),
                              MeanAll(x.body, Open([j \in DOMAIN all |-> [n |-> all[j].n, c |-> all[j].c]], env), top, kind))
    (* a function with a signature: type parameters around parameters around the body *)
    [] x.k = "fn" -> LET outer == Open(x.tps, env)
                     IN Both(Both(Both(Dup(x.tps), Dup(x.ps)), Sig(x.ps, outer, top, kind)), MeanAll(x.body, Open(x.ps, outer), top, kind))
    (* a function with a constraint on its type parameter *)
    [] x.k = "cls" -> Use("class", x.n, x.s, Open(x.tps, env), top, kind)
    (* a use of an instance: it must be at the top level, under whatever name *)
    [] x.k = "inst" -> [u |-> {}, e |-> IF \E e \in top : e.c = x.c THEN {} ELSE {Error("NoMatchingInstances", "", <<>>)}]

(* all modules, in an order where imports come first *)
RECURSIVE Walk(_, _, _, _)
Walk(ms, j, kind, done) == IF j > Len(ms) THEN done ELSE
  LET m == ms[j]
      needs == {m.imports[i].m : i \in DOMAIN m.imports} \cup (IF m.std THEN {1} ELSE {})
      exp == [i \in DOMAIN done |-> done[i].exports]
      top == Imported(m, exp) \cup Implicit(m, exp) \cup Declared(m)
      bad1 == TLCEval(ImportErrors(m, exp) \cup Clashes(top, "MultipleDeclarations"))
      r == IF bad1 # {} THEN None ELSE TLCEval(MeanAll(m.body, <<>>, top, kind))
      out == TakeAll(m.exports, top)
      bad2 == IF bad1 # {} THEN {} ELSE PortErrors(m.exports, top, "export-target") \cup Clashes(out, "ConflictingExports")
      errs == bad1 \cup r.e \cup bad2
  IN Walk(ms, j + 1, kind, Append(done, TLCEval(
       IF \E i \in needs : done[i].st # "ok" THEN [st |-> "dep", errs |-> {}, top |-> {}, u |-> {}, exports |-> {}]
       ELSE [st |-> IF errs = {} THEN "ok" ELSE "bad", errs |-> errs, top |-> top, u |-> r.u, exports |-> out])))

VARIABLES i, out
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
Init == i \in 1..Len(Batch) /\ out = <<>>
Next == out = <<>> /\ i' = i /\ out' = TLCEval(Walk(Batch[i].mods, 1, Batch[i].kinds, <<>>))
Spec == Init /\ [][Next]_<<i, out>>

(* every well-formed module's top level and exports are functions; what it exports it has *)
Functional == \A j \in DOMAIN out : out[j].st = "ok" =>
   /\ \A a, b \in out[j].top : a.n = b.n => a = b
   /\ \A a, b \in out[j].exports : a.n = b.n => a = b
   /\ \A a \in out[j].exports : \E b \in out[j].top : b.c = a.c
(* the order of imports, items and exports is irrelevant *)
Rev(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
Turned(ms) == [j \in DOMAIN ms |-> [ms[j] EXCEPT !.imports = Rev([a \in DOMAIN @ |-> [@[a] EXCEPT !.items = Rev(@)]]), !.exports = Rev(@), !.decls = Rev(@), !.body = Rev(@)]]
OrderFree == out = <<>> \/ i % 10 # 0 \/ Walk(Turned(Batch[i].mods), 1, Batch[i].kinds, <<>>) = out
Report == out = <<>> \/ PrintT(ToJson([id |-> Batch[i].id, mods |-> [j \in DOMAIN out |-> [st |-> out[j].st, errs |-> out[j].errs, u |-> out[j].u]]]))
============================================================================
