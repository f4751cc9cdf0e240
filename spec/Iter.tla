-------------------------------- MODULE Iter --------------------------------
(* Lazy iterators (std/iterator, std/it) as a network of small machines.      *)
(*                                                                            *)
(* An iterator is an object with a state and one transition, Pull, which gives *)
(* a value or none.  Combinators pull the iterators they were made of, which   *)
(* may be shared: node i of the network refers to earlier nodes by number, and  *)
(* two nodes may refer to the same one.  Everything that is observable goes to  *)
(* a log: a value a source gives away, a call of a function, a result.          *)
(* Elements are 32-bit integers.                                               *)
EXTENDS I32, Sequences, SequencesExt, TLC, Json, IOUtils
Rem(x, m) == Rem32(x, m)
Plus(x, y) == Add32(x, y)
Mix(x, y) == Rem(Plus(Mul32(x, 7), y), 97)
NONE == << >>
Opt(v) == IF v = << >> THEN <<-7002>> ELSE <<-7003, v[1]>>

(* D: the definitions [k, a, b, c, p, q, r, v] of the nodes; S: [st, log], the states of the nodes and the log.   *)
(* A state is three integers; which ones are used depends on the kind of the node.                                *)
Start(D) == [st |-> [i \in DOMAIN D |->
               CASE D[i].k \in {2, 3, 7} -> <<D[i].p, 0, 0>>
                 [] D[i].k \in {13, 14} -> <<D[i].p, 0, 0>>
                 [] D[i].k = 26 -> <<IF D[i].p < 0 THEN 1 ELSE 0, 0, 0>>
                 [] OTHER -> <<0, 0, 0>>],
             log |-> << >>]
Set(S, i, x) == [S EXCEPT !.st[i] = x]
Say(S, xs) == [S EXCEPT !.log = @ \o xs]
Out(v, S) == [v |-> v, s |-> TLCEval(S)]
Ok(d, x) == Rem(x, d.p) # d.q
Call(S, i, x) == Say(S, <<-7011, i, x>>)

RECURSIVE Pull(_, _, _), Search(_, _, _), SkipTo(_, _, _), Parts(_, _, _, _), Flat(_, _, _)
(* the first value of node a that f of node i accepts *)
Search(D, i, S) ==
  LET o == Pull(D, D[i].a, S)
  IN IF o.v = NONE THEN o
     ELSE LET T == Call(o.s, i, o.v[1]) IN IF Ok(D[i], o.v[1]) THEN Out(o.v, T) ELSE Search(D, i, T)
(* the first value that f of node i does not accept *)
SkipTo(D, i, S) ==
  LET o == Pull(D, D[i].a, S)
  IN IF o.v = NONE THEN o
     ELSE LET T == Call(o.s, i, o.v[1]) IN IF Ok(D[i], o.v[1]) THEN SkipTo(D, i, T) ELSE Out(o.v, T)
(* one after another: parts are nodes, of which the first st[1] are through *)
Parts(D, i, ps, S) ==
  LET n == S.st[i][1]
  IN IF n = Len(ps) THEN Out(NONE, S)
     ELSE LET o == Pull(D, ps[n + 1], S)
          IN IF o.v # NONE \/ n + 1 = Len(ps) THEN o ELSE Parts(D, i, ps, Set(o.s, i, <<n + 1, 0, 0>>))
(* st[i]: 0 no inner iterator; 1 from st[2] to st[3]; 2 the shared node b *)
Flat(D, i, S) ==
  LET d == D[i]  s == S.st[i]
      outer(T) == LET o == Pull(D, d.a, T)
                  IN IF o.v = NONE THEN Out(NONE, Set(o.s, i, <<0, 0, 0>>))
                     ELSE LET x == o.v[1]  U == Call(o.s, i, x)
                          IN Flat(D, i, Set(U, i, IF Rem(x, d.p) = d.q THEN <<2, 0, 0>> ELSE <<1, x, Plus(x, d.r)>>))
  IN CASE s[1] = 0 -> outer(S)
       [] s[1] = 1 -> IF s[2] < s[3] THEN Out(<<s[2]>>, Set(S, i, <<1, s[2] + 1, s[3]>>)) ELSE outer(S)
       [] s[1] = 2 -> LET o == Pull(D, d.b, S) IN IF o.v # NONE THEN o ELSE outer(o.s)

(* the next value of a list, from the front *)
Item(S, i, xs) == LET n == S.st[i][1] IN IF n = Len(xs) THEN Out(NONE, S) ELSE Out(<<xs[n + 1]>>, Set(S, i, <<n + 1, 0, 0>>))

Pull(D, i, S) ==
  IF i = 0 THEN Out(NONE, S)
  ELSE
  LET d == D[i]  s == S.st[i]
  IN CASE d.k = 1 -> LET o == Item(S, i, d.v) IN IF o.v = NONE THEN o ELSE Out(o.v, Say(o.s, <<-7010, i, o.v[1]>>))
       [] d.k = 2 -> IF (d.r > 0 /\ s[1] < d.q) \/ (d.r < 0 /\ s[1] > d.q)
                     THEN Out(<<s[1]>>, Set(S, i, <<Plus(s[1], d.r), 0, 0>>)) ELSE Out(NONE, S)
       [] d.k = 3 -> IF s[1] > 0 THEN Out(<<d.q>>, Set(S, i, <<s[1] - 1, 0, 0>>)) ELSE Out(NONE, S)
       [] d.k = 4 -> Item(S, i, <<d.p>>)
       [] d.k = 6 -> Out(<<d.p>>, S)
       [] d.k = 7 -> IF s[1] < d.q THEN Out(<<Rem(Mul32(s[1], d.r), 97)>>, Set(Call(S, i, s[1]), i, <<s[1] + 1, 0, 0>>)) ELSE Out(NONE, S)
       [] d.k \in {8, 9} -> Item(S, i, d.v)
       [] d.k = 10 -> LET o == Pull(D, d.a, S)
                      IN IF o.v = NONE THEN o ELSE Out(<<Rem(Plus(Mul32(o.v[1], d.p), d.q), 97)>>, Call(o.s, i, o.v[1]))
       [] d.k = 11 -> Search(D, i, S)
       [] d.k = 12 -> LET o == Search(D, i, S) IN IF o.v = NONE THEN o ELSE Out(<<Plus(o.v[1], d.r)>>, o.s)
       (* nothing is taken beyond what was asked for *)
       [] d.k = 13 -> IF s[1] > 0 THEN Pull(D, d.a, Set(S, i, <<s[1] - 1, 0, 0>>)) ELSE Out(NONE, S)
       [] d.k = 14 -> IF s[1] = 0 THEN Pull(D, d.a, S)
                      ELSE LET o == Pull(D, d.a, S) IN IF o.v = NONE THEN o ELSE Pull(D, i, Set(o.s, i, <<s[1] - 1, 0, 0>>))
       [] d.k = 15 -> IF s[1] = 1 THEN Out(NONE, S)
                      ELSE LET o == Pull(D, d.a, S)
                           IN IF o.v = NONE THEN o
                              ELSE LET T == Call(o.s, i, o.v[1]) IN IF Ok(d, o.v[1]) THEN Out(o.v, T) ELSE Out(NONE, Set(T, i, <<1, 0, 0>>))
       [] d.k = 16 -> IF s[1] = 1 THEN Pull(D, d.a, S) ELSE SkipTo(D, i, Set(S, i, <<1, 0, 0>>))
       [] d.k = 17 -> Flat(D, i, S)
       [] d.k = 18 -> Parts(D, i, <<d.a, d.b>>, S)
       (* an exhausted pair is not asked again: st[1] = 1 *)
       [] d.k \in {19, 20} ->
            LET end(T) == Out(NONE, Set(T, i, <<1, 0, 0>>))
            IN IF s[1] = 1 THEN Out(NONE, S)
               ELSE LET o == Pull(D, d.a, S)
                    IN IF o.v = NONE THEN end(o.s)
                       ELSE LET t == Pull(D, d.b, o.s)
                            IN IF t.v = NONE THEN end(t.s)
                               ELSE IF d.k = 19 THEN Out(<<Mix(o.v[1], t.v[1])>>, t.s)
                               ELSE Out(<<Mix(t.v[1], o.v[1])>>, Say(Call(t.s, i, o.v[1]), t.v))
       [] d.k = 21 ->
            LET o == Pull(D, d.a, S)  t == Pull(D, d.b, o.s)
            IN Out(IF o.v # NONE /\ t.v # NONE THEN <<Mix(o.v[1], t.v[1])>>
                   ELSE IF o.v # NONE THEN <<Plus(o.v[1], 200)>>
                   ELSE IF t.v # NONE THEN <<Plus(t.v[1], 400)>> ELSE NONE, t.s)
       [] d.k = 22 -> LET o == Pull(D, d.a, S)
                      IN IF o.v = NONE THEN o ELSE Out(<<Plus(s[1] * 11, o.v[1])>>, Set(o.s, i, <<o.s.st[i][1] + 1, 0, 0>>))
       [] d.k = 23 -> Parts(D, i, <<d.a, d.b, d.c>>, S)
       [] d.k \in {24, 25} -> Item(S, i, Reverse(d.v))
       [] d.k = 26 -> Item(S, i, <<d.p>>)
       [] d.k = 27 -> IF s[1] < Len(d.v) THEN Item(S, i, d.v) ELSE Pull(D, d.a, S)
       [] d.k = 28 -> Pull(D, d.a, S)
       [] OTHER -> Out(NONE, S)

(* ------------------------------------------------------------- consumers *)
Go(a, S) == [a |-> a, s |-> S, stop |-> FALSE]
Stop(a, S) == [a |-> a, s |-> S, stop |-> TRUE]
(* what consumer c = [op, i, p, q] does with the accumulator a and the next value x *)
Meets(c, x) == Rem(x, c.p) # c.q
Init0(c) == IF c.op \in {13, 14, 15, 17} THEN << >> ELSE IF c.op = 5 THEN c.p ELSE IF c.op = 12 THEN 1 ELSE 0
Step(c, a, x, S) ==
  LET T == Call(S, -1, x)
      ok == Meets(c, x)
  IN CASE c.op = 2 -> Go(a + 1, S)
       [] c.op = 4 -> IF a = c.p THEN Stop(x, S) ELSE Go(a + 1, S)
       [] c.op = 5 -> Go(Rem(Plus(Mul32(a, 3), x), 1009), T)
       [] c.op = 6 -> IF ok THEN Go(0, T) ELSE Stop(0, T)
       [] c.op = 7 -> IF ok THEN Stop(0, T) ELSE Go(0, T)
       [] c.op = 8 -> IF ok THEN Stop(x, T) ELSE Go(0, T)
       [] c.op = 9 -> IF ok THEN Stop(Plus(x, 5), T) ELSE Go(0, T)
       [] c.op = 10 -> IF ok THEN Stop(a, T) ELSE Go(a + 1, T)
       [] c.op = 11 -> Go(Plus(a, x), S)
       [] c.op = 12 -> Go(Mul32(a, x), S)
       [] c.op \in {13, 14} -> IF ok THEN Go(Append(a, Plus(x, 3)), T) ELSE Stop(<<x>>, T)
       [] c.op \in {15, 17} -> Go(Append(a, x), S)
       [] c.op = 16 -> Go(0, Say(S, <<-7012, x>>))
       [] c.op = 18 -> IF ok THEN Go(0, Say(S, <<-7012>>)) ELSE Stop(x, Say(S, <<-7012>>))
Shown(c, n) ==
  CASE c.op \in {2, 5, 11, 12} -> <<n.a>>
    [] c.op \in {4, 8, 9, 10, 18} -> Opt(IF n.stop THEN <<n.a>> ELSE NONE)
    [] c.op = 6 -> <<IF n.stop THEN -7005 ELSE -7004>>
    [] c.op = 7 -> <<IF n.stop THEN -7004 ELSE -7005>>
    [] c.op \in {13, 14} -> IF ~n.stop THEN <<-7003>> \o n.a ELSE IF c.op = 13 THEN <<-7002>> ELSE <<-7006>> \o n.a
    [] c.op \in {15, 17} -> n.a
    [] c.op = 16 -> << >>
RECURSIVE Run(_, _, _, _)
Run(D, c, S, a) ==
  LET o == Pull(D, c.i, S)
  IN IF o.v = NONE THEN Go(a, o.s)
     ELSE LET n == Step(c, a, o.v[1], o.s) IN IF n.stop THEN n ELSE Run(D, c, TLCEval(n.s), TLCEval(n.a))
(* The state after consumer c; its log ends with the result. *)
Consume(D, c, S) ==
  IF c.op \in {1, 3} THEN LET o == Pull(D, c.i, S) IN Say(o.s, Opt(o.v))
  ELSE LET n == Run(D, c, S, Init0(c)) IN Say(n.s, Shown(c, n))
=============================================================================
