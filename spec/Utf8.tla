-------------------------------- MODULE Utf8 --------------------------------
(* Unicode scalar values and their UTF-8 encoding. Strings are byte sequences. *)
EXTENDS Integers, Sequences

Scalar(c) == 0 <= c /\ c <= 1114111 /\ ~(55296 <= c /\ c <= 57343)
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncodeAll(_)
EncodeAll(cs) == IF cs = << >> THEN << >> ELSE Encode(Head(cs)) \o EncodeAll(Tail(cs))

Cont(b) == 128 <= b /\ b < 192
Width(b) == IF b < 128 THEN 1 ELSE IF 192 <= b /\ b < 224 THEN 2 ELSE IF 224 <= b /\ b < 240 THEN 3 ELSE IF 240 <= b /\ b < 248 THEN 4 ELSE 0
(* the character encoded at position i (1-based) of s: -1 if none is *)
CharAt(s, i) ==
  LET w == Width(s[i])
      c == CASE w = 1 -> s[i]
             [] w = 2 -> (s[i] % 32) * 64 + (s[i + 1] % 64)
             [] w = 3 -> (s[i] % 16) * 4096 + (s[i + 1] % 64) * 64 + (s[i + 2] % 64)
             [] w = 4 -> (s[i] % 8) * 262144 + (s[i + 1] % 64) * 4096 + (s[i + 2] % 64) * 64 + (s[i + 3] % 64)
  IN IF w = 0 \/ i + w - 1 > Len(s) \/ \E j \in 1..(w - 1) : ~Cont(s[i + j]) THEN -1
     ELSE IF Scalar(c) /\ Encode(c) = SubSeq(s, i, i + w - 1) THEN c ELSE -1
RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == i > Len(s) \/ (CharAt(s, i) # -1 /\ ValidFrom(s, i + Width(s[i])))
Valid(s) == ValidFrom(s, 1)
(* <<0-based offset, character>> of every character of a valid s *)
RECURSIVE IndicesFrom(_, _)
IndicesFrom(s, i) == IF i > Len(s) THEN << >> ELSE << <<i - 1, CharAt(s, i)>> >> \o IndicesFrom(s, i + Width(s[i]))
Indices(s) == IndicesFrom(s, 1)
Chars(s) == [j \in DOMAIN Indices(s) |-> Indices(s)[j][2]]
Boundary(s, i) == i = 0 \/ i = Len(s) \/ (0 < i /\ i < Len(s) /\ ~Cont(s[i + 1]))

Prefix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Suffix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
From(s, i) == SubSeq(s, i + 1, Len(s))
(* least 0-based offset of t in s: -1 if there is none *)
Find(t, s) ==
  LET at == {i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t}
  IN IF at = {} THEN -1 ELSE CHOOSE i \in at : \A j \in at : i <= j

RECURSIVE Split(_, _)
Split(t, s) == LET i == Find(t, s) IN IF i = -1 THEN <<s>> ELSE <<SubSeq(s, 1, i)>> \o Split(t, From(s, i + Len(t)))
RECURSIVE Join(_, _)
Join(t, ss) == IF ss = << >> THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o t \o Join(t, Tail(ss))
Lines(s) ==
  LET p == Split(<<10>>, s)
      q == IF p[Len(p)] = << >> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
      cr(l) == IF l # << >> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
  IN [i \in DOMAIN q |-> IF i < Len(p) THEN cr(q[i]) ELSE q[i]]
RECURSIVE RemoveStart(_, _)
RemoveStart(t, s) == IF t # << >> /\ Prefix(t, s) THEN RemoveStart(t, From(s, Len(t))) ELSE s
RECURSIVE RemoveEnd(_, _)
RemoveEnd(t, s) == IF t # << >> /\ Suffix(t, s) THEN RemoveEnd(t, SubSeq(s, 1, Len(s) - Len(t))) ELSE s
RECURSIVE Surround(_, _)
Surround(t, cs) == IF cs = << >> THEN t ELSE t \o Encode(Head(cs)) \o Surround(t, Tail(cs))
Replace(t, u, s) == IF t = << >> THEN Surround(u, Chars(s)) ELSE Join(u, Split(t, s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RECURSIVE Escape(_)
Escape(cs) ==
  IF cs = << >> THEN << >>
  ELSE (CASE Head(cs) = 9 -> <<92, 116>> [] Head(cs) = 13 -> <<92, 114>> [] Head(cs) = 10 -> <<92, 110>>
          [] Head(cs) = 34 -> <<92, 34>> [] Head(cs) = 92 -> <<92, 92>> [] OTHER -> Encode(Head(cs))) \o Escape(Tail(cs))
Debug(s) == <<34>> \o Escape(Chars(s)) \o <<34>>

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  CASE i > Len(a) /\ i > Len(b) -> "eq" [] i > Len(a) -> "lt" [] i > Len(b) -> "gt"
    [] a[i] < b[i] -> "lt" [] a[i] > b[i] -> "gt" [] OTHER -> CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)
=============================================================================
