------------------------------- MODULE Values -------------------------------
(* Values of data types with derived instances, and a machine that runs scripts over a store of them.
   Terms: [t |-> "con", n, i, m, fs] (constructor n, the i-th of m), "int" (r: rank of the value, d: its digits),
   "bool" (b), "char" (c), "str" (s: scalar values), "box" (e), and "obj": a reference to the heap object o,
   whose kind is "array", "vector" or "ref" and whose content is a sequence of terms. *)
EXTENDS Utf8, FiniteSets, TLC, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, pc, vals, heap, done
vars == <<r, pc, vals, heap, done>>
R == Recs[r]

(* ------------------------------------------------------------ structure *)
RECURSIVE Eq(_, _, _), EqAll(_, _, _)
Eq(h, a, b) ==
  CASE a.t = "con" -> a.i = b.i /\ EqAll(h, a.fs, b.fs)
    [] a.t = "int" -> a.r = b.r
    [] a.t = "bool" -> a.b = b.b
    [] a.t = "char" -> a.c = b.c
    [] a.t = "str" -> a.s = b.s
    [] a.t = "box" -> Eq(h, a.e, b.e)
    [] a.t = "obj" -> EqAll(h, h[a.o].es, h[b.o].es)
EqAll(h, x, y) == Len(x) = Len(y) /\ \A j \in DOMAIN x : Eq(h, x[j], y[j])

Num(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
OfCmp(s) == CASE s = "lt" -> -1 [] s = "eq" -> 0 [] s = "gt" -> 1
RECURSIVE Compare(_, _, _), Lex(_, _, _, _)
Compare(h, a, b) ==
  CASE a.t = "con" -> IF a.i # b.i THEN Num(a.i, b.i) ELSE Lex(h, a.fs, b.fs, 1)
    [] a.t = "int" -> Num(a.r, b.r)
    [] a.t = "bool" -> Num(a.b, b.b)
    [] a.t = "char" -> Num(a.c, b.c)
    [] a.t = "str" -> OfCmp(Cmp(EncodeAll(a.s), EncodeAll(b.s)))
    [] a.t = "box" -> Compare(h, a.e, b.e)
    [] a.t = "obj" -> Lex(h, h[a.o].es, h[b.o].es, 1)
Lex(h, x, y, j) ==
  CASE j > Len(x) \/ j > Len(y) -> Num(Len(x), Len(y))
    [] OTHER -> LET k == Compare(h, x[j], y[j]) IN IF k # 0 THEN k ELSE Lex(h, x, y, j + 1)

(* true if the written hash must tell a apart from any other value *)
RECURSIVE Delimited(_, _)
Delimited(h, a) ==
  CASE a.t = "con" -> \A j \in DOMAIN a.fs : Delimited(h, a.fs[j])
    [] a.t = "box" -> Delimited(h, a.e)
    [] a.t = "str" -> FALSE
    [] a.t = "obj" -> h[a.o].k = "ref" /\ Delimited(h, h[a.o].es[1])
    [] OTHER -> TRUE

(* the displayed form, as a sequence of bytes *)
Name(s) == [j \in DOMAIN s |-> s[j]]
EscChar(c) == CASE c = 9 -> <<92, 116>> [] c = 13 -> <<92, 114>> [] c = 10 -> <<92, 110>> [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] OTHER -> Encode(c)
Word(k) == CASE k = "array" -> <<97, 114, 114, 97, 121>> [] k = "vector" -> <<118, 101, 99, 116, 111, 114>> [] k = "ref" -> <<114, 101, 102>>
RECURSIVE Show(_, _), ShowAll(_, _)
Show(h, a) ==
  CASE a.t = "con" -> IF a.fs = << >> THEN a.n ELSE <<40>> \o a.n \o ShowAll(h, a.fs) \o <<41>>
    [] a.t = "int" -> a.d
    [] a.t = "bool" -> IF a.b = 1 THEN <<35, 116>> ELSE <<35, 102>>
    [] a.t = "char" -> <<35, 92>> \o EscChar(a.c)
    [] a.t = "str" -> Debug(EncodeAll(a.s))
    [] a.t = "box" -> <<40, 98, 111, 120, 32>> \o Show(h, a.e) \o <<41>>
    [] a.t = "obj" -> <<40>> \o Word(h[a.o].k) \o ShowAll(h, h[a.o].es) \o <<41>>
ShowAll(h, xs) == IF xs = << >> THEN << >> ELSE <<32>> \o Show(h, Head(xs)) \o ShowAll(h, Tail(xs))

(* a deep copy of a: [h |-> the grown heap, v |-> the copy] *)
RECURSIVE Copy(_, _), CopyAll(_, _)
Copy(h, a) ==
  CASE a.t = "con" -> LET x == CopyAll(h, a.fs) IN [h |-> x.h, v |-> [a EXCEPT !.fs = x.vs]]
    [] a.t = "box" -> LET x == Copy(h, a.e) IN [h |-> x.h, v |-> [a EXCEPT !.e = x.v]]
    [] a.t = "obj" -> LET x == CopyAll(h, h[a.o].es)
                      IN [h |-> Append(x.h, [k |-> h[a.o].k, es |-> x.vs]), v |-> [a EXCEPT !.o = Len(x.h) + 1]]
    [] OTHER -> [h |-> h, v |-> a]
CopyAll(h, xs) ==
  IF xs = << >> THEN [h |-> h, vs |-> << >>]
  ELSE LET x == Copy(h, Head(xs)) IN LET y == CopyAll(x.h, Tail(xs)) IN [h |-> y.h, vs |-> <<x.v>> \o y.vs]

(* the default value of type ty: a data type is an index into R.types *)
RECURSIVE Default(_, _), DefaultAll(_, _)
Default(h, ty) ==
  CASE ty.k = "data" -> LET c == R.types[ty.d] IN LET x == DefaultAll(h, c.fs) IN [h |-> x.h, v |-> [t |-> "con", n |-> c.n, i |-> 1, m |-> c.m, fs |-> x.vs]]
    [] ty.k = "int" -> [h |-> h, v |-> [t |-> "int", r |-> 0, d |-> <<48>>]]
    [] ty.k = "bool" -> [h |-> h, v |-> [t |-> "bool", b |-> 0]]
    [] ty.k = "char" -> [h |-> h, v |-> [t |-> "char", c |-> 0]]
    [] ty.k = "str" -> [h |-> h, v |-> [t |-> "str", s |-> << >>]]
    [] ty.k = "option" -> [h |-> h, v |-> [t |-> "con", n |-> <<110, 111, 110, 101>>, i |-> 1, m |-> 2, fs |-> << >>]]
    [] ty.k = "tuple" -> LET x == DefaultAll(h, ty.es) IN [h |-> x.h, v |-> [t |-> "con", n |-> <<58>>, i |-> 1, m |-> 1, fs |-> x.vs]]
    [] ty.k = "box" -> LET x == Default(h, ty.e) IN [h |-> x.h, v |-> [t |-> "box", e |-> x.v]]
    [] ty.k = "ref" -> LET x == Default(h, ty.e) IN [h |-> Append(x.h, [k |-> "ref", es |-> <<x.v>>]), v |-> [t |-> "obj", o |-> Len(x.h) + 1]]
    [] ty.k \in {"array", "vector"} -> [h |-> Append(h, [k |-> ty.k, es |-> << >>]), v |-> [t |-> "obj", o |-> Len(h) + 1]]
DefaultAll(h, ts) ==
  IF ts = << >> THEN [h |-> h, vs |-> << >>]
  ELSE LET x == Default(h, Head(ts)) IN LET y == DefaultAll(x.h, Tail(ts)) IN [h |-> y.h, vs |-> <<x.v>> \o y.vs]

(* -------------------------------------------------------------- scripts *)
Bit(x) == IF x THEN 1 ELSE 0
V(n) == vals[n + 1]
Obj(s) == V(s.i).fs[s.f + 1].o           \* the object in field f of value i
Stay == [h |-> heap, vs |-> vals]
Step(s, out) ==    \* {} or the set of the next states allowing the output
  CASE s.op = "cmp" ->
         LET a == V(s.i) b == V(s.j) e == Eq(heap, a, b) k == Compare(heap, a, b)
         IN IF out = <<Bit(e), Bit(~e), k, Bit(k < 0), Bit(k <= 0), Bit(k > 0), Bit(k >= 0)>> THEN {Stay} ELSE {}
    [] s.op = "hash" ->
         LET e == Eq(heap, V(s.i), V(s.j))
         IN IF (e => out = <<1>>) /\ (~e /\ Delimited(heap, V(s.i)) /\ Delimited(heap, V(s.j)) => out = <<0>>) /\ out \in {<<0>>, <<1>>} THEN {Stay} ELSE {}
    [] s.op = "show" -> IF out = Show(heap, V(s.i)) THEN {Stay} ELSE {}
    [] s.op = "copy" -> LET x == Copy(heap, V(s.i)) IN {[h |-> x.h, vs |-> Append(vals, x.v)]}
    [] s.op = "alias" -> {[h |-> heap, vs |-> Append(vals, V(s.i))]}
    [] s.op = "default" -> LET x == Default(heap, s.ty) IN {[h |-> x.h, vs |-> Append(vals, x.v)]}
    [] s.op = "push" -> {[h |-> [heap EXCEPT ![Obj(s)].es = Append(@, s.x)], vs |-> vals]}
    [] s.op = "set" -> {[h |-> [heap EXCEPT ![Obj(s)].es[1] = s.x], vs |-> vals]}

Init == r \in DOMAIN Recs /\ pc = 0 /\ done = FALSE /\ vals = R.vals /\ heap = R.heap
Report == PrintT(ToJson([id |-> R.id, n |-> pc]))
Next ==
  /\ ~done /\ r' = r
  /\ IF pc = Len(R.script) THEN done' = TRUE /\ Report /\ UNCHANGED <<pc, vals, heap>>
     ELSE LET nx == Step(R.script[pc + 1], R.outs[pc + 1])
          IN IF nx = {} THEN done' = TRUE /\ Report /\ UNCHANGED <<pc, vals, heap>>
             ELSE \E n \in nx : pc' = pc + 1 /\ vals' = n.vs /\ heap' = n.h /\ done' = FALSE
Spec == Init /\ [][Next]_vars

(* the laws themselves, over the store of every reached state *)
Ids == DOMAIN vals
Laws ==
  \A a, b \in Ids :
    /\ Eq(heap, vals[a], vals[b]) = (Compare(heap, vals[a], vals[b]) = 0)
    /\ Compare(heap, vals[a], vals[b]) = -Compare(heap, vals[b], vals[a])
    /\ \A c \in Ids : Compare(heap, vals[a], vals[b]) <= 0 /\ Compare(heap, vals[b], vals[c]) <= 0 => Compare(heap, vals[a], vals[c]) <= 0
LawsAtEnd == done => Laws
=============================================================================
