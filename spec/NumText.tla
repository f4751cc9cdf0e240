------------------------------ MODULE NumText -------------------------------
(* Integers of fixed width (words of bytes, least significant first) and their digit strings (bytes). *)
EXTENDS Word, FiniteSets, IOUtils, Json

DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
DigitOf(c) == CASE 48 <= c /\ c <= 57 -> c - 48 [] 97 <= c /\ c <= 122 -> c - 87 [] 65 <= c /\ c <= 90 -> c - 55 [] OTHER -> 99

(* division by a small number, from the most significant byte *)
RECURSIVE SmallDiv(_, _, _, _)
SmallDiv(w, m, i, rem) ==   \* <<quotient, remainder>> of the bytes i, i-1, .., 1
  IF i = 0 THEN << << >>, rem>>
  ELSE LET x == rem * 256 + w[i] IN LET d == SmallDiv(w, m, i - 1, x % m) IN <<Append(d[1], x \div m), d[2]>>
RECURSIVE Magnitude(_, _)
Magnitude(w, m) ==
  IF IsZero(w) THEN << >> ELSE LET d == SmallDiv(w, m, Len(w), 0) IN Append(Magnitude(TLCEval(d[1]), m), DigitChar(d[2]))
ToText(w, signed, radix) ==
  IF IsZero(w) THEN <<48>>
  ELSE IF signed /\ IsNeg(w) THEN <<45>> \o Magnitude(Neg(w), radix) ELSE Magnitude(w, radix)

(* the digits s as a number of n bytes: n is chosen so large that it cannot overflow *)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(w, m, i, carry) == IF i > Len(w) THEN << >> ELSE LET x == w[i] * m + carry IN <<x % 256>> \o MulAdd(w, m, i + 1, x \div 256)
RECURSIVE Value(_, _, _, _)
Value(s, radix, j, acc) == IF j > Len(s) THEN acc ELSE Value(s, radix, j + 1, TLCEval(MulAdd(acc, radix, 1, DigitOf(s[j]))))
None == << >>
FromText(s, signed, n, radix) ==
  LET minus == signed /\ s # << >> /\ s[1] = 45
      ds == IF minus THEN Tail(s) ELSE s
      big == n + Len(ds) + 1
      v == Value(ds, radix, 1, Zeros(big))
      x == IF minus THEN Neg(v) ELSE v
  IN IF ds = << >> \/ \E j \in DOMAIN ds : DigitOf(ds[j]) >= radix THEN None
     ELSE LET w == SubSeq(x, 1, n) IN IF Convert(w, signed, big) = x THEN w ELSE None

(* every byte value in every radix *)
Bytes == {<<b>> : b \in 0..255}
LawsOf(w, sg, radix) ==
  /\ FromText(ToText(w, sg, radix), sg, 1, radix) = w
  /\ FromText(<<48>> \o ToText(w, FALSE, radix), FALSE, 1, radix) = w
  /\ ~sg => FromText(<<45>> \o ToText(w, sg, radix), sg, 1, radix) = None
  /\ FromText(ToText(Convert(w, sg, 2), sg, radix), sg, 1, radix) = w
  /\ ToText(Convert(w, sg, 3), sg, radix) = ToText(w, sg, radix)

(* ------------------------------------------------ recorded conversions *)
Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, pc, ids, ok
vars == <<r, pc, ids, ok>>
R == Recs[r]
(* unique identifiers: the set of those seen so far *)
Allowed(c) ==
  CASE c.op \in {0, 2} -> c.out = ToText(c.w, R.signed, c.radix)
    [] c.op = 3 -> c.out = <<120>> \o ToText(c.w, R.signed, c.radix)
    [] c.op = 1 -> c.out = FromText(c.s, R.signed, R.n, c.radix)
    [] c.op = 9 -> c.out \notin ids
Init == r \in DOMAIN Recs /\ pc = 0 /\ ids = {} /\ ok = TRUE
Next ==
  /\ ok /\ pc <= Len(R.cases) /\ r' = r
  /\ IF pc = Len(R.cases) THEN /\ pc' = pc + 1 /\ PrintT(ToJson([id |-> R.id, n |-> pc])) /\ UNCHANGED <<ids, ok>>
     ELSE LET c == R.cases[pc + 1]
          IN IF Allowed(c) THEN pc' = pc + 1 /\ ids' = (IF c.op = 9 THEN ids \cup {c.out} ELSE ids) /\ ok' = TRUE
             ELSE ok' = FALSE /\ PrintT(ToJson([id |-> R.id, n |-> pc])) /\ UNCHANGED <<pc, ids>>
Spec == Init /\ [][Next]_vars
=============================================================================
