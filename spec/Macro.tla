------------------------------- MODULE Macro -------------------------------
(* Macros: code that computes program text from program text, and what a program with macro uses means. *)
(*                                                                                                       *)
(* A tree is  [k |-> "sym", s], [k |-> "atom", c, t, v] (a literal of class c denoted by t; v is its     *)
(* value when c is "int"), [k |-> "use", m, s] (the definition s of module m, wherever it stands),       *)
(* [k |-> "list", l], [k |-> "dot", l, t] (l nonempty, t neither a list nor dotted).                     *)
(*                                                                                                       *)
(* A world: mods, a record of modules [fns, macros, defs, scope]:                                        *)
(*   fns     name -> [ps, b]       functions on trees that may fail                                      *)
(*   macros  name -> [p, b]        the form is bound to p                                                *)
(*   defs    name -> [ps, e]       functions on numbers, e a tree                                        *)
(*   scope   name -> [m, s]        what a name means there                                               *)
(* Macros are run by Apply; Expand replaces macro uses until none is left; Sem runs what remains.        *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

VARIABLES i, done
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))

------------------------------------------------------------------------------
(* trees *)
Sym(s) == [k |-> "sym", s |-> s]
List(l) == [k |-> "list", l |-> l]
Nil == List(<<>>)
IsNil(t) == t.k = "list" /\ t.l = <<>>
IsCons(t) == t.k \in {"list", "dot"} /\ t.l # <<>>
Car(t) == Head(t.l)
Cdr(t) == IF t.k = "list" THEN List(Tail(t.l)) ELSE IF Len(t.l) = 1 THEN t.t ELSE [k |-> "dot", l |-> Tail(t.l), t |-> t.t]
(* items followed by a tail *)
Onto(hs, t) ==
  IF hs = <<>> THEN t
  ELSE IF t.k = "list" THEN List(hs \o t.l)
  ELSE IF t.k = "dot" THEN [k |-> "dot", l |-> hs \o t.l, t |-> t.t]
  ELSE [k |-> "dot", l |-> hs, t |-> t]
IsSym(t, s) == t.k = "sym" /\ t.s = s
Proper(t) == t.k = "list"

Ok(t) == [ok |-> TRUE, t |-> t, m |-> ""]
Fail(m) == [ok |-> FALSE, t |-> Nil, m |-> m]
Empty == [x \in {} |-> Nil]
None == [ok |-> FALSE, b |-> Empty]

------------------------------------------------------------------------------
(* the language macros are written in *)

(* patterns: _, var n, is n c (a literal of class c, a symbol "sym", a pair "cons"), lit t, nil, cons h t *)
RECURSIVE Match(_, _)
Match(p, t) ==
  CASE p.k = "_" -> [ok |-> TRUE, b |-> Empty]
    [] p.k = "var" -> [ok |-> TRUE, b |-> (p.n :> t)]
    [] p.k = "is" ->
         IF (p.c = "sym" /\ t.k = "sym") \/ (p.c = "cons" /\ IsCons(t)) \/ (p.c = "use" /\ t.k = "use") \/ (t.k = "atom" /\ t.c = p.c)
         THEN [ok |-> TRUE, b |-> (p.n :> t)] ELSE None
    [] p.k = "lit" -> IF t.k = p.t.k /\ t = p.t THEN [ok |-> TRUE, b |-> Empty] ELSE None
    [] p.k = "nil" -> IF IsNil(t) THEN [ok |-> TRUE, b |-> Empty] ELSE None
    [] p.k = "cons" ->
         IF ~IsCons(t) THEN None
         ELSE LET h == Match(p.h, Car(t)) IN
              IF ~h.ok THEN None
              ELSE LET r == Match(p.t, Cdr(t)) IN IF r.ok THEN [ok |-> TRUE, b |-> r.b @@ h.b] ELSE None

W(w) == Batch[w].mods

(* Ev: an expression on trees; Run: a body.  w: the world, m: the module of the code, v: its variables,
   p: a name no other evaluation has, from which new names are made *)
RECURSIVE Ev(_, _, _, _, _), Tmpl(_, _, _, _, _, _), Args(_, _, _, _, _, _), Run(_, _, _, _, _), Clauses(_, _, _, _, _, _, _)
RECURSIVE Each(_, _, _, _, _, _), FoldL(_, _, _, _, _, _, _), FoldR(_, _, _, _, _, _, _), Zip(_, _, _, _, _, _, _), Call(_, _, _, _, _)

Then1(x, F(_)) == IF x.ok THEN F(x.t) ELSE x

Ev(w, m, e, v, p) ==
  CASE e.k = "var" -> Ok(v[e.n])
    [] e.k = "tree" -> Ok(e.t)
    [] e.k = "cap" -> LET d == W(w)[m].scope[e.s] IN Ok([k |-> "use", m |-> d.m, s |-> d.s])
    [] e.k = "gensym" -> Ok(Sym("%" \o p))
    [] e.k = "qq" -> Tmpl(w, m, e.t, v, p, 1)
    [] e.k = "call" -> LET a == TLCEval(Args(w, m, e.as, v, p, 1)) IN IF a.ok THEN Call(w, W(w)[m].scope[e.f], a.l, v, p \o "c") ELSE Fail(a.m)
    [] e.k = "reverse" ->
         Then1(TLCEval(Ev(w, m, e.e, v, p)), LAMBDA t : IF Proper(t) THEN Ok(List([j \in DOMAIN t.l |-> t.l[Len(t.l) + 1 - j]])) ELSE Fail("s/reverse expects proper-list"))
    [] e.k = "append" ->
         LET a == TLCEval(Args(w, m, <<e.a, e.b>>, v, p, 1)) IN
         IF ~a.ok THEN Fail(a.m) ELSE IF Proper(a.l[1]) THEN Ok(Onto(a.l[1].l, a.l[2])) ELSE Fail("s/append expects proper-list")
    [] e.k = "length" ->
         Then1(TLCEval(Ev(w, m, e.e, v, p)), LAMBDA t : IF Proper(t) THEN Ok([k |-> "atom", c |-> "int", t |-> "u" \o ToString(Len(t.l)), v |-> Len(t.l)]) ELSE Fail("s/length expects proper-list"))
    [] e.k = "traverse" ->
         Then1(TLCEval(Ev(w, m, e.e, v, p)), LAMBDA t : IF Proper(t) THEN Each(w, W(w)[m].scope[e.f], t.l, v, p \o "t", 1) ELSE Fail("s/traverse expects proper-list"))
    [] e.k = "foldl" ->
         LET a == TLCEval(Args(w, m, <<e.a, e.b>>, v, p, 1)) IN
         IF ~a.ok THEN Fail(a.m) ELSE IF ~Proper(a.l[2]) THEN Fail("s/foldl expects proper-list")
         ELSE FoldL(w, m, e, a.l[1], a.l[2].l, v, p)
    [] e.k = "foldr" ->
         LET a == TLCEval(Args(w, m, <<e.a, e.b>>, v, p, 1)) IN
         IF ~a.ok THEN Fail(a.m) ELSE IF ~Proper(a.l[2]) THEN Fail("s/foldr expects proper-list")
         ELSE FoldR(w, m, e, a.l[1], a.l[2].l, v, p)
    [] e.k = "zip" ->
         LET a == TLCEval(Args(w, m, <<e.a, e.b>>, v, p, 1)) IN
         IF ~a.ok THEN Fail(a.m)
         ELSE IF Proper(a.l[1]) /\ Proper(a.l[2]) /\ Len(a.l[1].l) = Len(a.l[2].l) THEN Zip(w, m, e, a.l[1].l, a.l[2].l, v, p)
         ELSE Fail("s/zip expects proper same-length lists")

(* templates: trees that also contain [k |-> "unq", e] and, as items, [k |-> "spl", e]; items from the j-th on *)
Tmpl(w, m, t, v, p, j) ==
  CASE t.k = "unq" -> Ev(w, m, t.e, v, p)
    [] t.k \in {"list", "dot"} ->
         IF j > Len(t.l) THEN IF t.k = "list" THEN Ok(Nil) ELSE Tmpl(w, m, t.t, v, p \o "d", 1)
         ELSE LET x == t.l[j]  q == p \o ToString(j) \o "." IN
              IF x.k = "spl" /\ t.k = "list" /\ j = Len(t.l) THEN Ev(w, m, x.e, v, q)
              ELSE LET h == TLCEval(IF x.k = "spl" THEN Ev(w, m, x.e, v, q) ELSE Tmpl(w, m, x, v, q, 1)) IN
                   IF ~h.ok THEN h
                   ELSE LET r == TLCEval(Tmpl(w, m, t, v, p, j + 1)) IN
                        IF ~r.ok THEN r
                        ELSE IF x.k # "spl" THEN Ok(Onto(<<h.t>>, r.t))
                        ELSE IF Proper(h.t) THEN Ok(Onto(h.t.l, r.t)) ELSE Fail(",@ expects proper-list")
    [] OTHER -> Ok(t)

Args(w, m, es, v, p, j) ==
  IF j > Len(es) THEN [ok |-> TRUE, l |-> <<>>, m |-> ""]
  ELSE LET a == TLCEval(Ev(w, m, es[j], v, p \o "a" \o ToString(j))) IN
       IF ~a.ok THEN [ok |-> FALSE, l |-> <<>>, m |-> a.m]
       ELSE LET r == TLCEval(Args(w, m, es, v, p, j + 1)) IN IF r.ok THEN [ok |-> TRUE, l |-> <<a.t>> \o r.l, m |-> ""] ELSE r

Call(w, d, as, v, p) ==
  LET f == W(w)[d.m].fns[d.s] IN Run(w, d.m, f.b, [n \in {f.ps[j] : j \in DOMAIN f.ps} |-> as[CHOOSE j \in DOMAIN f.ps : f.ps[j] = n]], p)

Each(w, d, l, v, p, j) ==
  IF j > Len(l) THEN Ok(Nil)
  ELSE LET a == TLCEval(Call(w, d, <<l[j]>>, v, p \o ToString(j) \o ".")) IN
       IF ~a.ok THEN a ELSE LET r == TLCEval(Each(w, d, l, v, p, j + 1)) IN IF r.ok THEN Ok(Onto(<<a.t>>, r.t)) ELSE r

(* the folded functions cannot fail: a template over x and y *)
FoldL(w, m, e, a, l, v, p) ==
  IF l = <<>> THEN Ok(a) ELSE FoldL(w, m, e, TLCEval(Tmpl(w, m, e.t, (e.x :> a) @@ (e.y :> Head(l)) @@ v, p, 1)).t, Tail(l), v, p \o "l")
(* s/foldr f a (b . c) = (f a (s/foldr f b c)): the seed is shifted into the list *)
FoldR(w, m, e, a, l, v, p) ==
  IF l = <<>> THEN Ok(a)
  ELSE Tmpl(w, m, e.t, (e.x :> a) @@ (e.y :> TLCEval(FoldR(w, m, e, Head(l), Tail(l), v, p \o "r")).t) @@ v, p, 1)
Zip(w, m, e, a, b, v, p) ==
  IF a = <<>> THEN Ok(Nil)
  ELSE Ok(Onto(<<TLCEval(Tmpl(w, m, e.t, (e.x :> Head(a)) @@ (e.y :> Head(b)) @@ v, p, 1)).t>>, TLCEval(Zip(w, m, e, Tail(a), Tail(b), v, p \o "z")).t))

(* bodies: ok e, err m, match e cs, let n e b, tail f as *)
Run(w, m, b, v, p) ==
  CASE b.k = "ok" -> Ev(w, m, b.e, v, p \o "o")
    [] b.k = "err" -> Fail(b.m)
    [] b.k = "let" -> LET x == TLCEval(Ev(w, m, b.e, v, p \o "x")) IN IF x.ok THEN Run(w, m, b.b, (b.n :> x.t) @@ v, p \o "y") ELSE x
    [] b.k = "tail" -> LET a == TLCEval(Args(w, m, b.as, v, p, 1)) IN IF a.ok THEN Call(w, W(w)[m].scope[b.f], a.l, v, p \o "c") ELSE Fail(a.m)
    [] b.k = "match" -> LET x == TLCEval(Ev(w, m, b.e, v, p \o "x")) IN IF x.ok THEN Clauses(w, m, b.cs, x.t, v, p, 1) ELSE x
Clauses(w, m, cs, t, v, p, j) ==
  LET a == TLCEval(Match(cs[j].p, t)) IN
  IF a.ok THEN Run(w, m, cs[j].b, a.b @@ v, p \o "m") ELSE Clauses(w, m, cs, t, v, p, j + 1)

Apply(w, d, form, p) == LET x == W(w)[d.m].macros[d.s] IN Run(w, d.m, x.b, (x.p :> form), p)

------------------------------------------------------------------------------
(* expansion, of code of module m *)
SameModule == "Cannot use macro defined in the same module"
Target(w, m, t) ==                                         (* what the head of a form names, if anything *)
  IF ~(Proper(t) /\ IsCons(t)) THEN [m |-> "", s |-> ""]
  ELSE LET h == Car(t) IN
       IF h.k = "use" THEN [m |-> h.m, s |-> h.s]
       ELSE IF h.k = "sym" /\ h.s \in DOMAIN W(w)[m].scope THEN W(w)[m].scope[h.s] ELSE [m |-> "", s |-> ""]
IsMacro(w, d) == d.m \in DOMAIN W(w) /\ d.s \in DOMAIN W(w)[d.m].macros
IsUse(w, m, t) == IsMacro(w, Target(w, m, t))

RECURSIVE Heads(_, _, _, _, _)
(* macro uses at the head of t, replaced until there is none *)
Heads(w, m, t, p, n) ==
  IF ~IsUse(w, m, t) THEN Ok(t)
  ELSE LET d == Target(w, m, t) IN
       IF d.m = m THEN Fail(SameModule)
       ELSE LET r == TLCEval(Apply(w, d, t, p \o "/")) IN IF r.ok THEN Heads(w, m, r.t, p \o "/", n + 1) ELSE r

(* an expanded form, or the first failure *)
RECURSIVE Expr(_, _, _, _), Exprs(_, _, _, _, _), Binding(_, _, _, _), Bindings(_, _, _, _, _), Clause(_, _, _, _), ClauseSeq(_, _, _, _, _), Pat(_, _, _, _), Pats(_, _, _, _, _)
Wrap(h, x) == IF x.ok THEN Ok(List(h \o x.t.l)) ELSE x
Seq2(a, b) == IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE Ok(List(<<a.t>> \o b.t.l))

Exprs(w, m, l, p, j) ==
  IF j > Len(l) THEN Ok(Nil) ELSE Seq2(TLCEval(Expr(w, m, l[j], p \o ToString(j) \o ".")), TLCEval(Exprs(w, m, l, p, j + 1)))
Expr(w, m, t0, p) ==
  LET x == TLCEval(Heads(w, m, t0, p, 0))  t == x.t IN
  IF ~x.ok THEN x
  ELSE IF ~(Proper(t) /\ IsCons(t)) THEN Ok(t)
  ELSE LET h == Car(t) IN
       CASE IsSym(h, "quote") \/ IsSym(h, "capture") -> Ok(t)
         [] IsSym(h, "let") ->
              LET b == TLCEval(Bindings(w, m, t.l[2].l, p \o "b", 1)) IN
              IF ~b.ok THEN b ELSE Wrap(<<h, b.t>>, TLCEval(Exprs(w, m, t.l, p, 3)))
         [] IsSym(h, "match") ->
              LET a == TLCEval(Expr(w, m, t.l[2], p \o "2.")) IN
              IF ~a.ok THEN a ELSE Wrap(<<h, a.t>>, TLCEval(ClauseSeq(w, m, t.l, p, 3)))
         [] IsSym(h, "annotate") ->
              LET a == TLCEval(Expr(w, m, t.l[2], p \o "2."))  y == TLCEval(Expr(w, m, t.l[3], p \o "3.")) IN
              IF ~a.ok THEN a ELSE IF ~y.ok THEN y ELSE Ok(a.t)
         [] IsSym(h, "if") \/ IsSym(h, "begin") -> Wrap(<<h>>, TLCEval(Exprs(w, m, t.l, p, 2)))
         [] OTHER -> Wrap(<<h>>, TLCEval(Exprs(w, m, t.l, p, 2)))
(* [x e...] or [(f x...) e...]: the names are no expressions *)
Binding(w, m, b, p) == Wrap(<<Car(b)>>, Exprs(w, m, b.l, p, 2))
Bindings(w, m, l, p, j) ==
  IF j > Len(l) THEN Ok(Nil) ELSE Seq2(TLCEval(Binding(w, m, l[j], p \o ToString(j) \o ".")), TLCEval(Bindings(w, m, l, p, j + 1)))
Clause(w, m, c0, p) ==
  LET x == TLCEval(Heads(w, m, c0, p, 0)) IN
  IF ~x.ok THEN x
  ELSE LET q == TLCEval(Pat(w, m, Car(x.t), p \o "p")) IN
       IF ~q.ok THEN q ELSE Wrap(<<q.t>>, TLCEval(Exprs(w, m, x.t.l, p, 2)))
ClauseSeq(w, m, l, p, j) ==
  IF j > Len(l) THEN Ok(Nil) ELSE Seq2(TLCEval(Clause(w, m, l[j], p \o ToString(j) \o ".")), TLCEval(ClauseSeq(w, m, l, p, j + 1)))
Pats(w, m, l, p, j) ==
  IF j > Len(l) THEN Ok(Nil) ELSE Seq2(TLCEval(Pat(w, m, l[j], p \o ToString(j) \o ".")), TLCEval(Pats(w, m, l, p, j + 1)))
Pat(w, m, t0, p) ==
  LET x == TLCEval(Heads(w, m, t0, p, 0))  t == x.t IN
  IF ~x.ok THEN x
  ELSE IF ~(Proper(t) /\ IsCons(t)) THEN Ok(t)
  ELSE IF IsSym(Car(t), "let") THEN IF Len(t.l) = 2 THEN Ok(t) ELSE Wrap(<<t.l[1], t.l[2]>>, Pats(w, m, t.l, p, 3))
  ELSE Wrap(<<Car(t)>>, Pats(w, m, t.l, p, 2))

(* declarations: a form may become several *)
RECURSIVE Decl(_, _, _, _), Decls(_, _, _, _, _)
Decls(w, m, l, p, j) ==
  IF j > Len(l) THEN Ok(Nil)
  ELSE LET a == TLCEval(Decl(w, m, l[j], p \o ToString(j) \o ".")) IN
       IF ~a.ok THEN a ELSE LET r == TLCEval(Decls(w, m, l, p, j + 1)) IN IF r.ok THEN Ok(List(a.t.l \o r.t.l)) ELSE r
Decl(w, m, t0, p) ==
  LET x == TLCEval(Heads(w, m, t0, p, 0))  t == x.t IN
  IF ~x.ok THEN x
  ELSE IF Proper(t) /\ IsCons(t) /\ IsSym(Car(t), "begin") THEN Decls(w, m, t.l, p, 2)
  ELSE IF Proper(t) /\ IsCons(t) /\ IsSym(Car(t), "function") THEN      (* (function (annotate (f x ...) type) e ...) *)
         LET b == TLCEval(Exprs(w, m, t.l, p, 3)) IN IF b.ok THEN Ok(List(<<Wrap(<<t.l[1], t.l[2]>>, b).t>>)) ELSE b
  ELSE LET e == TLCEval(Expr(w, m, t, p)) IN IF e.ok THEN Ok(List(<<e.t>>)) ELSE e

------------------------------------------------------------------------------
(* running expanded code; values are numbers [n], truth values [b], trees [t], closures [ps, e, env];
   a result is [v, o]: the value and what was printed; ds: the functions declared in the program *)
Num(n) == [k |-> "n", n |-> n]
Truth(b) == [k |-> "b", b |-> b]
Tree(t) == [k |-> "t", t |-> t]
Done(v, o) == [v |-> v, o |-> o]
RECURSIVE Sem(_, _, _, _, _), SemSeq(_, _, _, _, _, _), SemArgs(_, _, _, _, _, _), Inits(_, _, _, _, _, _), Pick(_, _, _, _, _, _, _), MatchV(_, _), Body(_, _, _, _, _), Names(_, _)

Body(w, m, e, env, ds) == Sem(w, m, e, env, ds)
SemSeq(w, m, l, env, ds, j) ==
  LET a == TLCEval(Sem(w, m, l[j], env, ds)) IN
  IF j = Len(l) THEN a ELSE LET r == TLCEval(SemSeq(w, m, l, env, ds, j + 1)) IN Done(r.v, a.o \o r.o)
SemArgs(w, m, l, env, ds, j) ==
  IF j > Len(l) THEN Done(<<>>, <<>>)
  ELSE LET a == TLCEval(Sem(w, m, l[j], env, ds))  r == TLCEval(SemArgs(w, m, l, env, ds, j + 1)) IN Done(<<a.v>> \o r.v, a.o \o r.o)
Bind(ns, vs) == [n \in {ns[j] : j \in DOMAIN ns} |-> vs[CHOOSE j \in DOMAIN ns : ns[j] = n]]
Names(l, j) == IF j > Len(l) THEN <<>> ELSE <<l[j].s>> \o Names(l, j + 1)
Inits(w, m, bs, env, ds, j) ==
  IF j > Len(bs) THEN Done(Empty, <<>>)
  ELSE LET b == bs[j]
           a == TLCEval(IF b.l[1].k = "sym" THEN SemSeq(w, m, b.l, env, ds, 2)
                        ELSE Done([k |-> "f", ps |-> Names(b.l[1].l, 2), e |-> List(<<Sym("begin")>> \o Tail(b.l)), env |-> env], <<>>))
           r == TLCEval(Inits(w, m, bs, env, ds, j + 1))
       IN Done(((IF b.l[1].k = "sym" THEN b.l[1].s ELSE b.l[1].l[1].s) :> a.v) @@ r.v, a.o \o r.o)
MatchV(p, v) ==
  IF IsSym(p, "_") THEN [ok |-> TRUE, b |-> Empty]
  ELSE IF p.k = "atom" THEN IF p.c = "int" THEN [ok |-> v.n = p.v, b |-> Empty] ELSE [ok |-> v.b = (p.v = 1), b |-> Empty]
  ELSE IF Len(p.l) = 2 THEN [ok |-> TRUE, b |-> (p.l[2].s :> v)]                      (* (let x) *)
  ELSE LET r == MatchV(p.l[3], v) IN [ok |-> r.ok, b |-> (p.l[2].s :> v) @@ r.b]      (* (let x p) *)
Pick(w, m, cs, v, env, ds, j) ==
  LET r == TLCEval(MatchV(Car(cs[j]), v)) IN
  IF r.ok THEN SemSeq(w, m, cs[j].l, r.b @@ env, ds, 2) ELSE Pick(w, m, cs, v, env, ds, j + 1)

(* the value a tree is, for printing: its canonical text *)
RECURSIVE Text(_), TextAll(_, _)
TextAll(l, j) == IF j > Len(l) THEN "" ELSE Text(l[j]) \o " . (" \o TextAll(l, j + 1)
RECURSIVE Closes(_)
Closes(n) == IF n = 0 THEN "" ELSE ")" \o Closes(n - 1)
RECURSIVE Chain(_, _)
Chain(t, j) ==                                             (* fully dotted *)
  IF j > Len(t.l) THEN IF t.k = "list" THEN "()" ELSE Text(t.t)
  ELSE "(" \o Text(t.l[j]) \o " . " \o Chain(t, j + 1) \o ")"
Text(t) ==
  CASE t.k = "sym" -> "'" \o t.s
    [] t.k = "atom" -> t.c \o ":" \o t.t
    [] t.k = "use" -> "<use>"
    [] OTHER -> Chain(t, 1)

Prim(s, a) ==
  CASE s = "add" -> Done(Num(a[1].n + a[2].n), <<>>)
    [] s = "sub" -> Done(Num(a[1].n - a[2].n), <<>>)
    [] s = "mul" -> Done(Num((a[1].n % 1000) * (a[2].n % 1000)), <<>>)
    [] s = "lt" -> Done(Truth(a[1].n < a[2].n), <<>>)
    [] s = "out" -> Done(a[1], <<ToString(a[1].n)>>)
    [] s = "tree" -> Done(Num(0), <<Text(a[1].t)>>)
Prims == {"add", "sub", "mul", "lt", "out", "tree"}

CallF(w, d, a, ds) ==
  IF d.m = "lib" THEN Prim(d.s, a)
  ELSE IF d.m = "main" /\ d.s \in DOMAIN ds THEN LET f == ds[d.s] IN Sem(w, d.m, f.e, Bind(f.ps, a), ds)
  ELSE LET f == W(w)[d.m].defs[d.s] IN Sem(w, d.m, f.e, Bind(f.ps, a), ds)

Sem(w, m, t, env, ds) ==
  CASE t.k = "atom" -> Done(IF t.c = "int" THEN Num(t.v) ELSE Truth(t.v = 1), <<>>)
    [] t.k = "sym" -> Done(env[t.s], <<>>)
    [] OTHER ->
       LET h == Car(t) IN
       CASE IsSym(h, "quote") -> Done(Tree(t.l[2]), <<>>)
         [] IsSym(h, "capture") -> Done(Tree([k |-> "use", m |-> "", s |-> ""]), <<>>)
         [] IsSym(h, "if") ->
              LET c == TLCEval(Sem(w, m, t.l[2], env, ds))
                  r == TLCEval(Sem(w, m, IF c.v.b THEN t.l[3] ELSE t.l[4], env, ds)) IN Done(r.v, c.o \o r.o)
         [] IsSym(h, "begin") -> SemSeq(w, m, t.l, env, ds, 2)
         [] IsSym(h, "let") ->
              LET b == TLCEval(Inits(w, m, t.l[2].l, env, ds, 1))
                  r == TLCEval(SemSeq(w, m, t.l, b.v @@ env, ds, 3)) IN Done(r.v, b.o \o r.o)
         [] IsSym(h, "match") ->
              LET a == TLCEval(Sem(w, m, t.l[2], env, ds))
                  r == TLCEval(Pick(w, m, t.l, a.v, env, ds, 3)) IN Done(r.v, a.o \o r.o)
         [] OTHER ->
              LET a == TLCEval(SemArgs(w, m, t.l, env, ds, 2)) IN
              IF h.k = "sym" /\ h.s \in DOMAIN env
              THEN LET f == env[h.s]  r == TLCEval(Sem(w, m, f.e, Bind(f.ps, a.v) @@ f.env, ds)) IN Done(r.v, a.o \o r.o)
              ELSE LET d == IF h.k = "use" THEN [m |-> h.m, s |-> h.s]
                            ELSE IF m = "main" /\ h.s \in DOMAIN ds THEN [m |-> "main", s |-> h.s] ELSE W(w)[m].scope[h.s]
                       r == TLCEval(CallF(w, d, a.v, ds)) IN Done(r.v, a.o \o r.o)

(* a program of declarations: functions, and expressions run in order *)
IsFn(t) == Proper(t) /\ IsCons(t) /\ IsSym(Car(t), "function")
RECURSIVE Funs(_, _), Main(_, _, _, _)
Funs(l, j) ==
  IF j > Len(l) THEN Empty
  ELSE IF IsFn(l[j]) THEN (l[j].l[2].l[2].l[1].s :> [ps |-> Names(l[j].l[2].l[2].l, 2), e |-> List(<<Sym("begin")>> \o SubSeq(l[j].l, 3, Len(l[j].l)))]) @@ Funs(l, j + 1)
  ELSE Funs(l, j + 1)
Main(w, l, ds, j) ==
  IF j > Len(l) THEN <<>>
  ELSE IF IsFn(l[j]) THEN Main(w, l, ds, j + 1)
  ELSE TLCEval(Sem(w, "main", l[j], Empty, ds)).o \o Main(w, l, ds, j + 1)

Behaviour(w, forms, p) ==
  LET x == TLCEval(Decls(w, "main", forms, p, 1)) IN
  IF x.ok THEN [ok |-> TRUE, o |-> TLCEval(Main(w, x.t.l, TLCEval(Funs(x.t.l, 1)), 1)), m |-> "", t |-> x.t] ELSE [ok |-> FALSE, o |-> <<>>, m |-> x.m, t |-> Nil]

------------------------------------------------------------------------------
(* a batch: worlds with tasks: "apply" f to a tree, or a program *)
Init == i \in 1..Len(Batch) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>

Task(x, j) ==
  IF x.k = "apply"
  THEN LET r == TLCEval(Run(i, x.m, W(i)[x.m].macros[x.f].b, (W(i)[x.m].macros[x.f].p :> x.t), "g" \o ToString(j) \o "_")) IN
       [ok |-> r.ok, o |-> <<IF r.ok THEN Text(r.t) ELSE r.m>>, m |-> r.m]
  ELSE LET r == TLCEval(Behaviour(i, x.forms, "g" \o ToString(j) \o "_")) IN [ok |-> r.ok, o |-> r.o, m |-> r.m]
RECURSIVE Tasks(_, _)
Tasks(l, j) == IF j > Len(l) THEN <<>> ELSE <<TLCEval(Task(l[j], j))>> \o Tasks(l, j + 1)
Out == TLCEval(Tasks(Batch[i].tasks, 1))

(* laws: expansion leaves nothing to expand, so a second one changes nothing; a form without macro uses is
   left alone; forms are expanded independently of one another *)
Settled == done \/ \A j \in DOMAIN Batch[i].tasks :
  LET x == Batch[i].tasks[j] IN
  x.k = "apply" \/
  LET a == TLCEval(Decls(i, "main", x.forms, "h", 1)) IN
  a.ok => LET b == TLCEval(Decls(i, "main", a.t.l, "k", 1)) IN b.ok /\ b.t = a.t
Separate == done \/ \A j \in DOMAIN Batch[i].tasks :
  LET x == Batch[i].tasks[j] IN
  x.k = "apply" \/ (Decls(i, "main", x.forms, "h", 1).ok <=> \A q \in DOMAIN x.forms : Decl(i, "main", x.forms[q], "h").ok)
Report == done \/ PrintT(ToJson([id |-> Batch[i].id, res |-> Out]))
==============================================================================
