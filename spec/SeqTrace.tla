------------------------------ MODULE SeqTrace ------------------------------
(* Recorded histories of arrays, vectors (kind "seq") and of strings, texts (kind "str").
   bufs: the contents of every array buffer made; an array is a view <<buffer, offset, length>> into one, so that
   subarrays share storage; vecs: vector objects (sequences), vh: their handles; strings are values; texts are
   vector objects of bytes. A step yields the next state, the answer, and whether the operation is refused. *)
EXTENDS Utf8, FiniteSets, TLC, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, i, S, done, refs
vars == <<r, i, S, done, refs>>
R == Recs[r]

Str(n) == ToString(n)
Strs(s) == [j \in DOMAIN s |-> Str(s[j])]
B(x) == IF x THEN "t" ELSE "f"
Ix(a) == IF a < 0 THEN 1000000000 ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
InsertAt(s, n, x) == SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
DropAt(s, n) == SubSeq(s, 1, n) \o SubSeq(s, n + 2, Len(s))
Rep(x, n) == [j \in 1..n |-> x]
Swap(s, a, b) == [s EXCEPT ![a + 1] = s[b + 1], ![b + 1] = s[a + 1]]

(* results of a step: out = FALSE stands for no answer compared *)
Res(s, o) == [s |-> s, out |-> o, refused |-> FALSE]
Refuse == [s |-> S, out |-> << >>, refused |-> TRUE]
If(c, x) == IF c THEN x ELSE Refuse

(* ---------------------------------------------------------------- arrays *)
View(s, h) == s.arrs[h + 1]
Content(s, h) == LET v == View(s, h) IN SubSeq(s.bufs[v[1]], v[2] + 1, v[2] + v[3])
NewArr(s, c, xs) == [s EXCEPT !.bufs = Append(@, xs), !.arrs[c + 1] = <<Len(s.bufs) + 1, 0, Len(xs)>>]
Write(s, h, xs) ==   \* same length
  LET v == View(s, h) IN [s EXCEPT !.bufs[v[1]] = SubSeq(@, 1, v[2]) \o xs \o SubSeq(@, v[2] + v[3] + 1, Len(@))]
Sub(s, h, c, a, b) == LET v == View(s, h) IN [s EXCEPT !.arrs[c + 1] = <<v[1], v[2] + a, b - a>>]
G(a) == IF a \in {1, 2} THEN a ELSE 0

Arr(op, h, a0, b, c) ==
  LET xs == Content(S, h)
      n == Len(xs)
      ys == Content(S, G(a0))
      a == Ix(a0)
      bb == Ix(b)
      ok == a < n
  IN CASE op = 1 -> Res(NewArr(S, c, Rep(b, a)), << >>)
       [] op = 2 -> Res(S, IF ok THEN <<Str(xs[a + 1])>> ELSE <<"-">>)
       [] op \in {3, 5} -> If(ok, Res(S, <<Str(xs[a + 1])>>))
       [] op \in {4, 28} -> If(ok, Res(Write(S, h, [xs EXCEPT ![a + 1] = b]), << >>))
       [] op = 6 -> If(a <= bb /\ bb <= n, Res(Sub(S, h, c, a, bb), << >>))
       [] op = 7 -> Res(Sub(S, h, c, 0, Min2(a, n)), << >>)
       [] op = 8 -> Res(Sub(S, h, c, Min2(a, n), n), << >>)
       [] op = 9 -> Res(S, IF a <= n THEN Strs(SubSeq(xs, 1, a)) \o <<"|">> \o Strs(From(xs, a)) ELSE <<"-">>)
       [] op = 10 -> Res(S, IF n > 0 THEN <<Str(xs[1]), "|">> \o Strs(Tail(xs)) ELSE <<"-">>)
       [] op = 11 -> Res(S, IF n > 0 THEN <<Str(xs[n]), "|">> \o Strs(SubSeq(xs, 1, n - 1)) ELSE <<"-">>)
       [] op = 31 -> If(a <= n, Res(S, Strs(SubSeq(xs, 1, a)) \o <<"|">> \o Strs(From(xs, a))))
       [] op = 32 -> If(n > 0, Res(S, <<Str(xs[1]), "|">> \o Strs(Tail(xs))))
       [] op = 33 -> If(n > 0, Res(S, <<Str(xs[n]), "|">> \o Strs(SubSeq(xs, 1, n - 1))))
       [] op = 12 -> If(a <= n, Res(NewArr(S, c, InsertAt(xs, a, b)), << >>))
       [] op = 13 -> Res(NewArr(S, c, Append(xs, b)), << >>)
       [] op = 14 -> Res(NewArr(S, c, <<b>> \o xs), << >>)
       [] op = 15 -> If(ok, Res(NewArr(S, c, [xs EXCEPT ![a + 1] = b]), << >>))
       [] op = 16 -> If(ok, Res(NewArr(S, c, DropAt(xs, a)), << >>))
       [] op = 17 -> Res(NewArr(S, c, xs \o ys), << >>)
       [] op = 18 -> Res(Write(S, h, Rep(b, n)), << >>)
       [] op = 19 -> If(Len(ys) <= n, Res(Write(S, h, ys \o From(xs, Len(ys))), << >>))
       [] op = 20 -> If(ok /\ bb < n, Res(Write(S, h, Swap(xs, a, bb)), << >>))
       [] op = 21 -> Res(Write(S, h, Rev(xs)), << >>)
       [] op \in {22, 29, 30} -> Res(NewArr(S, c, xs), << >>)
       [] op = 23 -> Res(S, Strs(xs))
       [] op = 24 -> Res(S, Strs(Rev(xs)))
       [] op = 25 -> Res(S, <<Str(n), B(n = 0)>>)
       [] op = 26 -> Res(S, <<B(xs = ys), B(xs # ys)>>)
       [] op = 27 -> Res(S, <<Cmp(xs, ys)>>)
       [] op = 34 -> Res(NewArr(S, c, <<b, b>>), << >>)

(* --------------------------------------------------------------- vectors *)
Vec(s, h) == s.vecs[s.vh[h + 1]]
SetVec(s, h, xs) == [s EXCEPT !.vecs[s.vh[h + 1]] = xs]
NewVec(s, c, xs) == [s EXCEPT !.vecs = Append(@, xs), !.vh[c + 1] = Len(s.vecs) + 1]

VecOp(op, h, a0, b, c) ==
  LET xs == Vec(S, h)
      n == Len(xs)
      ys == Vec(S, G(a0))
      t == Content(S, G(a0))
      a == Ix(a0)
      bb == Ix(b)
      ok == a < n
  IN CASE op = 40 -> Res(NewVec(S, c, Rep(b, a)), << >>)
       [] op = 41 -> Res(S, IF ok THEN <<Str(xs[a + 1])>> ELSE <<"-">>)
       [] op \in {42, 74} -> If(ok, Res(S, <<Str(xs[a + 1])>>))
       [] op \in {43, 68} -> If(ok, Res(SetVec(S, h, [xs EXCEPT ![a + 1] = b]), << >>))
       [] op = 44 -> Res(SetVec(S, h, Append(xs, b)), << >>)
       [] op = 45 -> IF n = 0 THEN Res(S, <<"-">>) ELSE Res(SetVec(S, h, SubSeq(xs, 1, n - 1)), <<Str(xs[n])>>)
       [] op = 46 -> If(a <= n, Res(SetVec(S, h, InsertAt(xs, a, b)), << >>))
       [] op = 47 -> If(ok, Res(SetVec(S, h, DropAt(xs, a)), <<Str(xs[a + 1])>>))
       [] op = 48 -> If(ok, Res(SetVec(S, h, SubSeq([xs EXCEPT ![a + 1] = xs[n]], 1, n - 1)), <<Str(xs[a + 1])>>))
       [] op = 49 -> Res(SetVec(S, h, SubSeq(xs, 1, Min2(a, n))), << >>)
       [] op = 50 -> Res(SetVec(S, h, << >>), << >>)
       [] op = 51 -> Res(SetVec(S, h, xs \o t), << >>)
       [] op = 52 -> If(a <= n, Res(NewArr(SetVec(S, h, From(xs, a)), c, SubSeq(xs, 1, a)), << >>))
       [] op = 53 -> Res(NewArr(SetVec(S, h, << >>), c, xs), << >>)
       [] op = 54 -> Res(NewVec(SetVec(S, h, << >>), c, xs), << >>)
       [] op \in {55, 56} -> Res(S, <<"t">>)
       [] op = 57 -> Res([S EXCEPT !.vh[c + 1] = S.vh[h + 1]], << >>)
       [] op \in {58, 71, 73} -> Res(NewVec(S, c, xs), << >>)
       [] op \in {59, 76} -> Res(S, Strs(xs))
       [] op = 60 -> Res(S, Strs(Rev(xs)))
       [] op = 61 -> Res(S, <<Str(n), B(n = 0), "t", "t">>)
       [] op = 62 -> Res(S, <<B(xs = ys), B(xs # ys)>>)
       [] op = 63 -> Res(S, <<Cmp(xs, ys)>>)
       [] op = 64 -> If(ok /\ bb < n, Res(SetVec(S, h, Swap(xs, a, bb)), << >>))
       [] op = 65 -> Res(SetVec(S, h, Rev(xs)), << >>)
       [] op = 66 -> Res(SetVec(S, h, Rep(b, n)), << >>)
       [] op = 67 -> Res(SetVec(S, h, xs \o xs), << >>)
       [] op = 69 -> Res(NewArr(S, c, xs), << >>)
       [] op = 70 -> Res(NewVec(S, c, t), << >>)
       [] op = 72 -> Res(NewVec(S, c, << >>), << >>)
       [] op = 75 -> Res(NewVec(S, c, <<b, b, b>>), << >>)

(* --------------------------------------------------------------- strings *)
SetStr(s, c, x) == [s EXCEPT !.strs[c + 1] = x]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Tail(ss))
Bars(ss) == Flat([j \in DOMAIN ss |-> Strs(ss[j]) \o <<"|">>])
RECURSIVE Bytes256(_, _)
Bytes256(a, n) == IF n = 0 THEN << >> ELSE <<a % 256>> \o Bytes256(a \div 256, n - 1)

StrOp(op, h, a0, b, c) ==
  LET s == S.strs[h + 1]
      n == Len(s)
      t == S.strs[G(a0) + 1]
      u == S.strs[G(b) + 1]
      a == Ix(a0)
      bb == Ix(b)
      ia == Indices(s)
      sub == SubSeq(s, Min2(a, n) + 1, Min2(Min2(a, n) + bb, n))
  IN CASE op = 110 -> Res(S, Strs(s))
       [] op = 111 -> Res(S, Strs(Chars(s)))
       [] op = 112 -> Res(S, Flat([j \in DOMAIN ia |-> <<Str(ia[j][1]), Str(ia[j][2])>>]))
       [] op = 113 -> Res(S, <<Str(n), B(n = 0)>>)
       [] op = 114 -> If(a <= bb /\ bb <= n /\ Boundary(s, a) /\ Boundary(s, bb), Res(SetStr(S, c, SubSeq(s, a + 1, bb)), << >>))
       [] op = 115 -> If(Boundary(s, Min2(a, n)), Res(SetStr(S, c, SubSeq(s, 1, Min2(a, n))), << >>))
       [] op = 116 -> If(Boundary(s, Min2(a, n)), Res(SetStr(S, c, From(s, Min2(a, n))), << >>))
       [] op = 117 -> If(a < n, Res(S, <<Str(s[a + 1])>>))
       [] op = 118 -> Res(S, <<B(Boundary(s, a))>>)
       [] op = 119 -> Res(S, <<B(Prefix(t, s))>>)
       [] op = 120 -> Res(S, <<B(Suffix(t, s))>>)
       [] op = 121 -> Res(S, <<B(Find(t, s) # -1)>>)
       [] op = 122 -> Res(S, IF Find(t, s) = -1 THEN <<"-">> ELSE <<Str(Find(t, s))>>)
       [] op = 123 -> Res(SetStr(S, c, Replace(t, u, s)), << >>)
       [] op = 124 -> Res(SetStr(S, c, RemoveStart(t, s)), << >>)
       [] op = 125 -> Res(SetStr(S, c, RemoveEnd(t, s)), << >>)
       [] op = 126 -> Res(S, IF t = << >> THEN Bars([j \in DOMAIN ia |-> Encode(ia[j][2])]) ELSE Bars(Split(t, s)))
       [] op = 127 -> Res(S, Bars(Lines(s)))
       [] op \in {128, 134} -> Res(SetStr(S, c, EncodeAll(Rev(Chars(s)))), << >>)
       [] op = 129 -> Res(SetStr(S, c, Join(t, S.strs)), << >>)
       [] op = 130 -> Res(S, <<B(s = t), B(s # t)>>)
       [] op = 131 -> Res(S, <<Cmp(s, t), B(Cmp(s, t) = "lt")>>)
       [] op = 132 -> IF Valid(sub) THEN Res(SetStr(S, c, sub), Strs(sub) \o <<"|">>) ELSE Res(S, <<"-">>)
       [] op = 133 -> Res(S, <<B(Valid(Bytes256(a0, b)))>>)
       [] op = 135 -> Res(S, Strs(Debug(s)))
       [] op = 136 -> Res(SetStr(S, c, s \o t \o Encode(233) \o u), << >>)
       [] op = 137 -> Res(SetStr(S, c, s), << >>)
       [] op = 138 -> Res(SetStr(S, c, << >>), << >>)

CharOf(a) == IF Scalar(a) THEN a ELSE 63
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

TextOp(op, h, a0, b, c) ==
  LET x == Vec(S, h)
      n == Len(x)
      y == Vec(S, G(a0))
      t == S.strs[G(a0) + 1]
      a == Ix(a0)
  IN CASE op = 140 -> Res(SetVec(S, h, x \o Encode(CharOf(a0))), << >>)
       [] op = 141 -> Res(SetVec(S, h, x \o t), << >>)
       [] op = 142 -> If(a <= n /\ Boundary(x, a), Res(SetStr(SetVec(S, h, From(x, a)), c, SubSeq(x, 1, a)), << >>))
       [] op = 143 -> Res(SetStr(SetVec(S, h, << >>), c, x), << >>)
       [] op = 144 -> Res(NewVec(SetVec(S, h, << >>), c, x), << >>)
       [] op = 145 -> Res(SetStr(S, c, x), << >>)
       [] op = 146 -> Res([S EXCEPT !.vh[c + 1] = S.vh[h + 1]], << >>)
       [] op = 147 -> Res(NewVec(S, c, x), << >>)
       [] op = 148 -> Res(S, <<Str(n), B(n = 0)>>)
       [] op = 149 -> Res(S, Strs(x))
       [] op = 150 -> Res(S, <<B(x = y), B(x # y)>>)
       [] op = 151 -> Res(S, <<Cmp(x, y)>>)
       [] op \in {152, 153} -> Res(NewVec(S, c, t), << >>)
       [] op = 154 -> Res(SetVec(S, h, x \o Dec(a0)), << >>)
       [] op = 155 -> Res(NewVec(S, c, << >>), << >>)
       [] op = 156 -> Res(NewVec(S, c, t \o t), << >>)
       [] op = 160 -> Res(S, IF Scalar(a0) THEN <<Str(a0)>> ELSE <<"-">>)
       [] op = 161 -> Res(S, <<Str(Len(Encode(CharOf(a0))))>>)
       [] op = 162 -> Res(S, <<Cmp(<<CharOf(a0)>>, <<CharOf(c)>>)>>)
       [] op = 163 -> Res(S, Strs(Encode(CharOf(a0))))

Do(o) == CASE o[1] < 40 -> Arr(o[1], o[2], o[3], o[4], o[5])
           [] o[1] < 100 -> VecOp(o[1], o[2], o[3], o[4], o[5])
           [] o[1] < 140 -> StrOp(o[1], o[2], o[3], o[4], o[5])
           [] OTHER -> TextOp(o[1], o[2], o[3], o[4], o[5])

Init == r \in DOMAIN Recs /\ i = 0 /\ done = FALSE /\ refs = << << >>, << >> >>
        /\ S = [bufs |-> << << >> >>, arrs |-> [h \in 1..3 |-> <<1, 0, 0>>], vecs |-> << << >>, << >>, << >> >>, vh |-> <<1, 2, 3>>,
                strs |-> << << >>, << >>, << >> >>]
(* histories are kept small: an operation that makes something longer than Cap is passed over as well *)
Cap == 40
Big(s) == \/ \E j \in DOMAIN s.vecs : Len(s.vecs[j]) > Cap
          \/ Len(s.bufs[Len(s.bufs)]) > Cap
          \/ \E j \in DOMAIN s.strs : Len(s.strs[j]) > Cap
Report(n) == PrintT(ToJson([id |-> R.id, n |-> n, refs |-> refs[1], skips |-> refs[2]]))
(* with R.blind only the states are followed, and the operations to be refused are noted and passed over *)
Next ==
  /\ ~done
  /\ r' = r
  /\ IF i = Len(R.ops) THEN done' = TRUE /\ Report(i) /\ UNCHANGED <<i, S, refs>>
     ELSE LET d == Do(R.ops[i + 1])
          IN IF d.refused /\ R.blind THEN i' = i + 1 /\ refs' = [refs EXCEPT ![1] = Append(@, i)] /\ UNCHANGED <<S, done>>
             ELSE IF R.blind /\ Big(d.s) THEN i' = i + 1 /\ refs' = [refs EXCEPT ![2] = Append(@, i)] /\ UNCHANGED <<S, done>>
             ELSE IF ~d.refused /\ (R.blind \/ d.out = R.outs[i + 1]) THEN i' = i + 1 /\ S' = d.s /\ UNCHANGED <<done, refs>>
             ELSE done' = TRUE /\ Report(i) /\ UNCHANGED <<i, S, refs>>
Spec == Init /\ [][Next]_vars
=============================================================================
