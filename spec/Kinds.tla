------------------------------- MODULE Kinds -------------------------------
(* What the kinds of the declarations of a program are, and whether it has any.                      *)
(*                                                                                                   *)
(* Kinds are terms: Type, Constraint, Satisfaction, Value and functions of them.  A program is a      *)
(* sequence of modules, each of which sees the modules before it; a module is                         *)
(*   data    : sequence of [n : name, ps : parameters, fs : types of all its fields]                 *)
(*   classes : sequence of [n, ps, sup : constraints, ms : functions]                                *)
(*   insts   : sequence of [n, ps, s : constraints, h : constraint, ms : bodies]                     *)
(*   funs    : functions [n, ps, s, t : type, b : body]                                              *)
(*   inits   : body                                                                                  *)
(* where a parameter is [g : name, a : <<>> or <<kind>>], a constraint [c : class, l : types], and a   *)
(* body the sequence of what mentions types in it: [k |-> "ann", t] or [k |-> "fun", f : function].   *)
(* All names differ.                                                                                 *)
(*                                                                                                   *)
(* Declarations that mention one another are inferred together; what they leave open is Type for     *)
(* everything that comes later.                                                                      *)
EXTENDS Terms

Constraint == C("Constraint")
Satisfaction == C("Satisfaction")
Value == C("Value")
ToKind(ks, k) == IF ks = <<>> THEN k ELSE Fun(ks, k)

Builtins == [I32 |-> Type, unit |-> Type, Ptr |-> Fun(<<Type>>, Type)]
(* env: name of a constructor, class or parameter -> its kind *)
Start == [ok |-> TRUE, why |-> "", sub |-> <<>>, env |-> Builtins]
No(st, why) == IF st.ok THEN TLCEval([st EXCEPT !.ok = FALSE, !.why = why]) ELSE st
Eq(st, a, b) == IF ~st.ok THEN st
                ELSE LET r == TLCEval(Solve(<<>>, st.sub, <<<<a, b>>>>)) IN
                     IF r.ok THEN TLCEval([st EXCEPT !.sub = r.x]) ELSE No(st, "mismatch")
Of(st, k) == TLCEval(Res(st.sub, k))
Bind(st, n, k) == TLCEval([st EXCEPT !.env = (n :> k) @@ @])

(* the types of a sequence, from left to right: [s, ks] *)
RECURSIVE KType(_, _), KTypes(_, _, _)
KType(st, t) ==
  CASE t.k = "c" -> [s |-> st, t |-> st.env[t.n]]
    [] t.k = "g" -> [s |-> st, t |-> st.env[t.g]]
    [] t.k = "->" -> LET r == TLCEval(KTypes(st, t.l, <<>>))       \* function types: everything is a Type
                         e[i \in 0..Len(t.l)] == IF i = 0 THEN r.s ELSE Eq(e[i - 1], r.ks[i], Type)
                     IN [s |-> TLCEval(e[Len(t.l)]), t |-> Type]
    [] OTHER -> LET f == TLCEval(KType(st, t.f))
                    r == TLCEval(KTypes(f.s, t.l, <<>>))
                    v == V(Len(r.s.sub) + 1)
                    n == TLCEval([r.s EXCEPT !.sub = Append(@, None)])
                IN [s |-> TLCEval(Eq(n, f.t, ToKind(r.ks, v))), t |-> v]
KTypes(st, l, ks) == IF l = <<>> THEN [s |-> st, ks |-> ks]
                     ELSE LET r == TLCEval(KType(st, Head(l))) IN KTypes(r.s, Tail(l), Append(ks, r.t))

IsType(st, t) == LET r == TLCEval(KType(st, t)) IN TLCEval(Eq(r.s, r.t, Type))
RECURSIVE AllTypes(_, _), AllHold(_, _)
AllTypes(st, l) == IF l = <<>> THEN st ELSE AllTypes(TLCEval(IsType(st, Head(l))), Tail(l))
Holds(st, c) == LET r == TLCEval(KTypes(st, c.l, <<>>)) IN TLCEval(Eq(r.s, st.env[c.c], ToKind(r.ks, Constraint)))
AllHold(st, cs) == IF cs = <<>> THEN st ELSE AllHold(TLCEval(Holds(st, Head(cs))), Tail(cs))

(* parameters: a new variable each, which is what the annotation says *)
RECURSIVE Params(_, _)
Params(st, ps) ==
  IF ps = <<>> THEN st
  ELSE LET p == Head(ps)
           v == V(Len(st.sub) + 1)
           n == TLCEval(Bind([st EXCEPT !.sub = Append(@, None)], p.g, v))
       IN Params(IF p.a = <<>> THEN n ELSE TLCEval(Eq(n, v, p.a[1])), Tail(ps))
KindsOf(st, ps) == TLCEval([j \in DOMAIN ps |-> st.env[ps[j].g]])
(* a generic declaration of parameters ps, n premises and result k *)
Declare(st, name, ps, n, k) ==
  LET d == TLCEval(Params(st, ps)) IN
  TLCEval(Bind(d, name, ToKind(KindsOf(d, ps) \o [j \in 1..n |-> Satisfaction], k)))

(* what is still open is Type; a type parameter stands for types and functions of them only *)
RECURSIVE Defaulted(_, _), FirstClass(_)
Defaulted(st, vs) == IF vs = {} THEN st ELSE LET v == CHOOSE v \in vs : TRUE IN Defaulted(TLCEval([st EXCEPT !.sub[v] = Type]), vs \ {v})
FirstClass(k) == CASE k.k = "a" -> (\A i \in DOMAIN k.l : FirstClass(k.l[i]))
                   [] OTHER -> k = Type
RECURSIVE Settle(_, _)
Settle(st, ps) ==
  IF ~st.ok \/ ps = <<>> THEN st
  ELSE LET g == Head(ps).g
           d == TLCEval(Defaulted(st, Vars(Of(st, st.env[g]))))
           k == Of(d, d.env[g])
       IN Settle(IF FirstClass(k) THEN TLCEval(Bind(d, g, k)) ELSE No(d, "not first class"), Tail(ps))
Fix(st, name, ps) == LET s == TLCEval(Settle(st, ps)) IN IF ~s.ok THEN s ELSE TLCEval(Bind(s, name, Of(s, s.env[name])))
RECURSIVE FixAll(_, _)
FixAll(st, ds) == IF ds = <<>> THEN st ELSE FixAll(TLCEval(Fix(st, Head(ds).n, Head(ds).ps)), Tail(ds))

(* ---- functions with a signature, and what bodies mention ---- *)
RECURSIVE Function_(_, _), Body(_, _)
Function_(st, f) ==
  LET d == TLCEval(Declare(st, f.n, f.ps, Len(f.s), Value))
      c == TLCEval(AllHold(d, f.s))
      t == TLCEval(IsType(c, f.t))
      x == TLCEval(Fix(t, f.n, f.ps))
  IN IF x.ok THEN TLCEval(Body(x, f.b)) ELSE x
Body(st, b) == IF ~st.ok \/ b = <<>> THEN st
               ELSE Body(IF Head(b).k = "ann" THEN TLCEval(IsType(st, Head(b).t)) ELSE TLCEval(Function_(st, Head(b).f)), Tail(b))
RECURSIVE Functions(_, _)
Functions(st, fs) == IF ~st.ok \/ fs = <<>> THEN st ELSE Functions(TLCEval(Function_(st, Head(fs))), Tail(fs))

(* ---- groups ---- *)
RECURSIVE Mentions(_), Reach(_, _)
Mentions(t) == CASE t.k = "c" -> {t.n}
                 [] t.k = "a" -> Mentions(t.f) \cup UNION {Mentions(t.l[i]) : i \in DOMAIN t.l}
                 [] t.k = "->" -> UNION {Mentions(t.l[i]) : i \in DOMAIN t.l}
                 [] OTHER -> {}
DataDeps(ds) == TLCEval([j \in DOMAIN ds |-> {i \in DOMAIN ds : \E x \in DOMAIN ds[j].fs : ds[i].n \in Mentions(ds[j].fs[x])}])
ClassDeps(cs) == TLCEval([j \in DOMAIN cs |-> {i \in DOMAIN cs : \/ \E x \in DOMAIN cs[j].sup : cs[j].sup[x].c = cs[i].n
                                                         \/ \E m \in DOMAIN cs[j].ms : \E x \in DOMAIN cs[j].ms[m].s : cs[j].ms[m].s[x].c = cs[i].n}])
Reach(d, s) == LET n == s \cup UNION {d[j] : j \in s} IN IF n = s THEN s ELSE Reach(d, n)
Group(d, j) == {i \in Reach(d, {j}) : j \in Reach(d, {i})}
(* a group that waits for none of the others in rest *)
Ready(d, rest) == CHOOSE g \in {Group(d, j) : j \in rest} : \A j \in g : (Reach(d, {j}) \ g) \cap rest = {}
InOrder(s) == LET r[n \in 0..Cardinality(s)] ==
                    IF n = 0 THEN <<>> ELSE Append(r[n - 1], CHOOSE x \in s : Cardinality({y \in s : y < x}) = n - 1)
              IN r[Cardinality(s)]

RECURSIVE DeclareData(_, _), Fields(_, _), Datas(_, _, _, _)
DeclareData(st, g) == IF g = <<>> THEN st ELSE DeclareData(TLCEval(Declare(st, Head(g).n, Head(g).ps, 0, Type)), Tail(g))
Fields(st, g) == IF g = <<>> THEN st ELSE Fields(TLCEval(AllTypes(st, Head(g).fs)), Tail(g))
Datas(st, ds, d, rest) ==
  IF ~st.ok \/ rest = {} THEN st
  ELSE LET s == Ready(d, rest)
           o == InOrder(s)
           g == TLCEval([j \in DOMAIN o |-> ds[o[j]]])
           f == TLCEval(Fields(DeclareData(st, g), g))
       IN Datas(IF f.ok THEN TLCEval(FixAll(f, g)) ELSE f, ds, d, rest \ s)

RECURSIVE DeclareMethods(_, _), DeclareClasses(_, _), MethodTypes(_, _), ClassTypes(_, _), FixClasses(_, _), Defaults(_, _), Classes_(_, _, _, _)
DeclareMethods(st, ms) == IF ms = <<>> THEN st ELSE DeclareMethods(TLCEval(Declare(st, Head(ms).n, Head(ms).ps, Len(Head(ms).s), Value)), Tail(ms))
DeclareClasses(st, g) == IF g = <<>> THEN st
                         ELSE DeclareClasses(TLCEval(DeclareMethods(Declare(st, Head(g).n, Head(g).ps, 0, Constraint), Head(g).ms)), Tail(g))
MethodTypes(st, ms) == IF ms = <<>> THEN st ELSE MethodTypes(TLCEval(IsType(AllHold(st, Head(ms).s), Head(ms).t)), Tail(ms))
ClassTypes(st, g) == IF g = <<>> THEN st ELSE ClassTypes(TLCEval(MethodTypes(AllHold(st, Head(g).sup), Head(g).ms)), Tail(g))
FixClasses(st, g) == IF ~st.ok \/ g = <<>> THEN st ELSE FixClasses(TLCEval(FixAll(Fix(st, Head(g).n, Head(g).ps), Head(g).ms)), Tail(g))
RECURSIVE Bodies(_, _)
Bodies(st, ms) == IF ~st.ok \/ ms = <<>> THEN st ELSE Bodies(TLCEval(Body(st, Head(ms).b)), Tail(ms))
Defaults(st, g) == IF ~st.ok \/ g = <<>> THEN st ELSE Defaults(TLCEval(Bodies(st, Head(g).ms)), Tail(g))
Classes_(st, cs, d, rest) ==
  IF ~st.ok \/ rest = {} THEN st
  ELSE LET s == Ready(d, rest)
           o == InOrder(s)
           g == TLCEval([j \in DOMAIN o |-> cs[o[j]]])
           t == TLCEval(ClassTypes(DeclareClasses(st, g), g))
           x == IF t.ok THEN TLCEval(FixClasses(t, g)) ELSE t
       IN Classes_(x, cs, d, rest \ s)

RECURSIVE Instances(_, _)
Instances(st, is) ==
  IF ~st.ok \/ is = <<>> THEN st
  ELSE LET i == Head(is)
           d == TLCEval(Declare(st, i.n, i.ps, Len(i.s), Satisfaction))
           t == TLCEval(Holds(AllHold(d, i.s), i.h))
           x == IF t.ok THEN TLCEval(Fix(t, i.n, i.ps)) ELSE t
           b == TLCEval(Bodies(x, i.ms))
       IN Instances(b, Tail(is))

Module(st, m) ==
  LET a == TLCEval(Datas(st, m.data, DataDeps(m.data), DOMAIN m.data))
      b == IF a.ok THEN TLCEval(Classes_(a, m.classes, ClassDeps(m.classes), DOMAIN m.classes)) ELSE a
      e == IF b.ok THEN TLCEval(Defaults(b, m.classes)) ELSE b
      c == IF e.ok THEN TLCEval(Functions(e, m.funs)) ELSE e
      d == IF c.ok THEN TLCEval(Instances(c, m.insts)) ELSE c
  IN IF d.ok THEN TLCEval(Body(d, m.inits)) ELSE d
RECURSIVE Modules(_, _)
Modules(st, ms) == IF ~st.ok \/ ms = <<>> THEN st ELSE Modules(TLCEval(Module(st, Head(ms))), Tail(ms))
(* env of everything declared, once the modules are done *)
Kinding(ms) == LET r == TLCEval(Modules(Start, ms)) IN IF r.ok THEN [ok |-> TRUE, env |-> r.env] ELSE [ok |-> FALSE, why |-> r.why]
=============================================================================
