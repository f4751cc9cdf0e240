------------------------------ MODULE IterLaws ------------------------------
(* Laws of the iterators of Iter.tla, for every short source and every         *)
(* combinator over it.                                                        *)
EXTENDS Iter
Vals == {0, 1, 2}
Lists == UNION {[1..n -> Vals] : n \in 0..3}
Node(k, a, b, p, q, r, v) == [k |-> k, a |-> a, b |-> b, c |-> 0, p |-> p, q |-> q, r |-> r, v |-> v]
Src(v) == Node(1, 0, 0, 0, 0, 0, v)
RECURSIVE Rest(_, _, _, _)
Rest(D, i, S, acc) == LET o == Pull(D, i, S) IN IF o.v = NONE THEN [v |-> acc, s |-> o.s] ELSE Rest(D, i, o.s, Append(acc, o.v[1]))
All(D, i) == Rest(D, i, Start(D), << >>).v
Taken(S) == LET f == SelectSeq([j \in 1..(Len(S.log) \div 3) |-> <<S.log[3 * j - 2], S.log[3 * j - 1], S.log[3 * j]>>], LAMBDA e : e[1] = -7010)
            IN [i \in {e[2] : e \in Range(f)} |-> [j \in 1..Len(SelectSeq(f, LAMBDA e : e[2] = i)) |-> SelectSeq(f, LAMBDA e : e[2] = i)[j][3]]]
Keeps(v, p, q) == SelectSeq(v, LAMBDA x : x % p # q)
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE Prefix(_, _, _)
Prefix(v, p, q) == IF v = << >> \/ v[1] % p = q THEN << >> ELSE <<v[1]>> \o Prefix(Tail(v), p, q)

VARIABLES v, w, n, q
vars == <<v, w, n, q>>
Init == v \in Lists /\ w = << >> /\ n = -1 /\ q = 0
Next == n = -1 /\ v' = v /\ w' \in {x \in Lists : Len(x) < 3} /\ n' \in 0..3 /\ q' \in 0..1
Spec == Init /\ [][Next]_vars
One(k, p) == <<Src(v), Node(k, 1, 0, p, q, 1, << >>)>>
Two(k) == <<Src(v), Src(w), Node(k, 1, 2, 2, q, 1, << >>)>>
Filters == n >= 0 =>
           /\ All(One(11, 2), 2) = Keeps(v, 2, q)
           /\ Len(All(One(12, 2), 2)) = Len(Keeps(v, 2, q))
           /\ All(One(15, 2), 2) = Prefix(v, 2, q)
           /\ All(One(16, 2), 2) = SubSeq(v, 1 + Len(Prefix(v, 2, q)), Len(v))
(* taking never takes more than it was asked for, and the rest is still there *)
Lazy == n >= 0 =>
        LET D == One(13, n)  t == Rest(D, 2, Start(D), << >>)  k == MinOf(n, Len(v))
        IN /\ t.v = SubSeq(v, 1, k) /\ t.s.st[1][1] = k
           /\ Rest(D, 1, t.s, << >>).v = SubSeq(v, k + 1, Len(v))
           /\ All(One(14, n), 2) = SubSeq(v, k + 1, Len(v))
           /\ \A i \in DOMAIN Taken(t.s) : Taken(t.s)[i] = SubSeq(v, 1, k)
(* a shared source: what one user takes is gone for the other *)
Shared == n >= 0 =>
           /\ All(<<Src(v), Node(18, 1, 1, 0, 0, 0, << >>)>>, 2) = v
           /\ All(<<Src(v), Node(13, 1, 0, n, 0, 0, << >>), Node(18, 2, 1, 0, 0, 0, << >>)>>, 3) = v
           /\ Len(All(<<Src(v), Node(19, 1, 1, 0, 0, 0, << >>)>>, 2)) = Len(v) \div 2
Pairs == n >= 0 =>
           /\ All(Two(18), 3) = v \o w
           /\ All(<<Src(v), Src(w), [Node(23, 1, 2, 0, 0, 0, << >>) EXCEPT !.c = 1]>>, 3) = v \o w
           /\ All(Two(19), 3) = [j \in 1..MinOf(Len(v), Len(w)) |-> Mix(v[j], w[j])]
           /\ LET m == IF Len(v) > Len(w) THEN Len(v) ELSE Len(w)
            IN All(Two(21), 3) = [j \in 1..m |-> IF j > Len(v) THEN w[j] + 400 ELSE IF j > Len(w) THEN v[j] + 200 ELSE Mix(v[j], w[j])]
Counts == n >= 0 =>
          LET c(op) == Consume(<<Src(v)>>, [op |-> op, i |-> 1, p |-> 2, q |-> q], Start(<<Src(v)>>)).log
              end(op) == c(op)[Len(c(op))]
          IN /\ end(2) = Len(v)
             /\ (end(6) = -7004) = (Keeps(v, 2, q) = v)
             /\ (end(7) = -7004) = (Keeps(v, 2, q) # << >>)
             /\ (end(8) = -7002) = (Keeps(v, 2, q) = << >>)
             /\ end(8) # -7002 => end(8) = Keeps(v, 2, q)[1]
             /\ (end(13) = -7002) = (Keeps(v, 2, q) # v)
=============================================================================
