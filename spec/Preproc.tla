------------------------------ MODULE Preproc ------------------------------
(* The preprocessor: directives and metavariables of an S-expression program.                        *)
(*                                                                                                   *)
(* A tree is  [k |-> "sym", s], [k |-> "str", s], [k |-> "chr", s] (s a one character text),         *)
(* [k |-> "bool", b], [k |-> "atom", t] (numbers), [k |-> "list", l], [k |-> "dot", l, t]            *)
(* (l nonempty, t neither a list nor dotted).  Quotations are the lists (quote x) ... they abbreviate. *)
(*                                                                                                   *)
(* A scope is a sequence of bindings, the innermost last.  Scopes are values: what a directive binds *)
(* is seen by its body and by nothing else.                                                          *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Err == [ok |-> FALSE, l |-> <<>>]
Good(l) == [ok |-> TRUE, l |-> l]

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsMeta(s) == Starts(s, "$")
IsName(t) == t.k = "sym" /\ (IsMeta(t.s) \/ t.s = "_")
IsList(t) == t.k = "list"
Directives == {"$symbol", "$let", "$let1", "$for", "$for1", "$when", "$not", "$feature"}

Bound(env, x) == \E i \in DOMAIN env : env[i].n = x
Lookup(env, x) == env[CHOOSE i \in DOMAIN env : env[i].n = x /\ \A j \in DOMAIN env : env[j].n = x => j <= i].v
Bind(env, names, vals) ==
  env \o SelectSeq([i \in DOMAIN names |-> [n |-> names[i], v |-> vals[i]]], LAMBDA b : b.n # "_")

List(l) == [k |-> "list", l |-> l]
(* heads followed by a tail: (a b . (c)) is (a b c) *)
Cons(hs, t) ==
  IF hs = <<>> THEN t
  ELSE IF t.k = "list" THEN List(hs \o t.l)
  ELSE IF t.k = "dot" THEN [k |-> "dot", l |-> hs \o t.l, t |-> t.t]
  ELSE [k |-> "dot", l |-> hs, t |-> t]

Rest(l, n) == SubSeq(l, n, Len(l))

RECURSIVE Expand(_, _, _), ExpandSeq(_, _, _), One(_, _, _), Repeat(_, _, _, _, _), Binds(_, _, _)
RECURSIVE Text(_)

(* a directive or a symbol may stand for any number of trees *)
ExpandSeq(ts, env, fs) ==
  IF ts = <<>> THEN Good(<<>>)
  ELSE LET a == TLCEval(Expand(Head(ts), env, fs)) IN
       IF ~a.ok THEN Err
       ELSE LET b == TLCEval(ExpandSeq(Tail(ts), env, fs)) IN
            IF b.ok THEN Good(a.l \o b.l) ELSE Err

(* where exactly one tree is wanted *)
One(t, env, fs) == LET r == TLCEval(Expand(t, env, fs)) IN IF r.ok /\ Len(r.l) = 1 THEN r ELSE Err

Text(ts) == IF ts = <<>> THEN "" ELSE Head(ts).s \o Text(Tail(ts))

Repeat(names, rows, body, env, fs) ==
  IF rows = <<>> THEN Good(<<>>)
  ELSE LET a == TLCEval(ExpandSeq(body, Bind(env, names, Head(rows).l), fs)) IN
       IF ~a.ok THEN Err
       ELSE LET b == TLCEval(Repeat(names, Tail(rows), body, env, fs)) IN
            IF b.ok THEN Good(a.l \o b.l) ELSE Err

(* the values of bindings, all of them computed outside the scope they open *)
Binds(bs, env, fs) ==
  IF bs = <<>> THEN Good(<<>>)
  ELSE LET b == Head(bs) IN
       IF ~(IsList(b) /\ Len(b.l) = 2 /\ IsName(b.l[1])) THEN Err
       ELSE LET v == TLCEval(One(b.l[2], env, fs)) IN
            IF ~v.ok THEN Err
            ELSE LET r == TLCEval(Binds(Tail(bs), env, fs)) IN IF r.ok THEN Good(v.l \o r.l) ELSE Err

Names(ts) == [i \in DOMAIN ts |-> ts[i].s]

SymbolD(l, env, fs) ==
  LET r == TLCEval(ExpandSeq(Tail(l), env, fs)) IN
  IF r.ok /\ (\A i \in DOMAIN r.l : r.l[i].k \in {"sym", "str", "chr"}) /\ Text(r.l) # ""
  THEN Good(<<[k |-> "sym", s |-> Text(r.l)]>>) ELSE Err

LetD(l, env, fs) ==
  IF ~(Len(l) >= 2 /\ IsList(l[2])) THEN Err
  ELSE LET vs == TLCEval(Binds(l[2].l, env, fs)) IN
       IF ~vs.ok THEN Err
       ELSE ExpandSeq(Rest(l, 3), Bind(env, [i \in DOMAIN l[2].l |-> l[2].l[i].l[1].s], vs.l), fs)

Let1D(l, env, fs) ==
  IF ~(Len(l) >= 3 /\ IsName(l[2])) THEN Err
  ELSE LET v == TLCEval(One(l[3], env, fs)) IN
       IF v.ok THEN ExpandSeq(Rest(l, 4), Bind(env, <<l[2].s>>, v.l), fs) ELSE Err

ForD(l, env, fs) ==
  IF ~(Len(l) >= 3 /\ IsList(l[2]) /\ \A i \in DOMAIN l[2].l : IsName(l[2].l[i])) THEN Err
  ELSE LET v == TLCEval(One(l[3], env, fs)) IN
       IF v.ok /\ IsList(v.l[1]) /\ (\A i \in DOMAIN v.l[1].l : IsList(v.l[1].l[i]) /\ Len(v.l[1].l[i].l) = Len(l[2].l))
       THEN Repeat(Names(l[2].l), v.l[1].l, Rest(l, 4), env, fs) ELSE Err

For1D(l, env, fs) ==
  IF ~(Len(l) >= 3 /\ IsName(l[2])) THEN Err
  ELSE LET v == TLCEval(One(l[3], env, fs)) IN
       IF v.ok /\ IsList(v.l[1])
       THEN Repeat(<<l[2].s>>, [i \in DOMAIN v.l[1].l |-> List(<<v.l[1].l[i]>>)], Rest(l, 4), env, fs) ELSE Err

WhenD(l, env, fs) ==
  IF Len(l) < 2 THEN Err
  ELSE LET v == TLCEval(One(l[2], env, fs)) IN
       IF ~(v.ok /\ v.l[1].k = "bool") THEN Err
       ELSE IF v.l[1].b THEN ExpandSeq(Rest(l, 3), env, fs) ELSE Good(<<>>)

NotD(l, env, fs) ==
  IF Len(l) # 2 THEN Err
  ELSE LET v == TLCEval(One(l[2], env, fs)) IN
       IF v.ok /\ v.l[1].k = "bool" THEN Good(<<[k |-> "bool", b |-> ~v.l[1].b]>>) ELSE Err

FeatureD(l, env, fs) ==
  IF Len(l) # 2 THEN Err
  ELSE LET v == TLCEval(One(l[2], env, fs)) IN
       IF v.ok /\ v.l[1].k = "str" THEN Good(<<[k |-> "bool", b |-> \E i \in DOMAIN fs : fs[i] = v.l[1].s]>>) ELSE Err

IsDirective(t) == t.k = "list" /\ t.l # <<>> /\ t.l[1].k = "sym" /\ t.l[1].s \in Directives

Directive(l, env, fs) ==
  LET d == l[1].s IN
  IF d = "$symbol" THEN SymbolD(l, env, fs)
  ELSE IF d = "$let" THEN LetD(l, env, fs)
  ELSE IF d = "$let1" THEN Let1D(l, env, fs)
  ELSE IF d = "$for" THEN ForD(l, env, fs)
  ELSE IF d = "$for1" THEN For1D(l, env, fs)
  ELSE IF d = "$when" THEN WhenD(l, env, fs)
  ELSE IF d = "$not" THEN NotD(l, env, fs)
  ELSE FeatureD(l, env, fs)

Expand(t, env, fs) ==
  IF t.k = "sym" /\ IsMeta(t.s) THEN (IF Bound(env, t.s) THEN Good(<<Lookup(env, t.s)>>) ELSE Err)
  ELSE IF IsDirective(t) THEN Directive(t.l, env, fs)
  ELSE IF t.k = "list" THEN (LET r == TLCEval(ExpandSeq(t.l, env, fs)) IN IF r.ok THEN Good(<<List(r.l)>>) ELSE Err)
  ELSE IF t.k = "dot" THEN
    LET h == TLCEval(ExpandSeq(t.l, env, fs)) x == TLCEval(One(t.t, env, fs)) IN
    IF h.ok /\ x.ok THEN Good(<<Cons(h.l, x.l[1])>>) ELSE Err
  ELSE Good(<<t>>)

Program(ts, fs) == ExpandSeq(ts, <<>>, fs)

------------------------------------------------------------------------------
(* laws *)
RECURSIVE Plain(_)
Plain(t) == CASE t.k = "sym" -> ~IsMeta(t.s)
              [] t.k = "list" -> \A i \in DOMAIN t.l : Plain(t.l[i])
              [] t.k = "dot" -> Plain(t.t) /\ \A i \in DOMAIN t.l : Plain(t.l[i])
              [] OTHER -> TRUE
PlainAll(ts) == \A i \in DOMAIN ts : Plain(ts[i])

VARIABLES i, out
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))
Init == i \in 1..Len(Batch) /\ out = TLCEval(Program(Batch[i].ts, Batch[i].fs))
Next == UNCHANGED <<i, out>>
Spec == Init /\ [][Next]_<<i, out>>

(* a program without metavariables is left alone *)
Identity == PlainAll(Batch[i].ts) => out = Good(Batch[i].ts)
(* and what the preprocessor leaves behind is no longer its business, unless a directive built the name *)
Settled == (out.ok /\ PlainAll(out.l)) => Program(out.l, Batch[i].fs) = out
(* the top level scope is empty: each tree means the same whatever stands before it *)
Separate == out.ok <=> \A j \in DOMAIN Batch[i].ts : Program(<<Batch[i].ts[j]>>, Batch[i].fs).ok
(* a tree wrapped in a trivial scope means the same; a _ binds nothing *)
Wrap == LET w == <<List(<<[k |-> "sym", s |-> "$let"], List(<<List(<<[k |-> "sym", s |-> "_"], List(<<>>)>>)>>)>> \o Batch[i].ts)>>
        IN Program(w, Batch[i].fs) = out
Report == PrintT(ToJson([id |-> Batch[i].id, ok |-> out.ok, l |-> out.l]))
==============================================================================
