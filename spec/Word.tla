-------------------------------- MODULE Word --------------------------------
(* Fixed-width two's-complement words as sequences of bytes, least           *)
(* significant first, and IEEE-754 values in a window of exact magnitudes.   *)
EXTENDS Integers, Sequences, Bitwise, TLC

Zeros(n) == TLCEval([i \in 1..n |-> 0])
One(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
IsNeg(a) == a[Len(a)] >= 128
IsZero(a) == \A i \in DOMAIN a : a[i] = 0

BwNot(a) == TLCEval([i \in DOMAIN a |-> 255 - a[i]])
BwAnd(a, b) == TLCEval([i \in DOMAIN a |-> a[i] & b[i]])
BwOr(a, b) == TLCEval([i \in DOMAIN a |-> a[i] | b[i]])
BwXor(a, b) == TLCEval([i \in DOMAIN a |-> a[i] ^^ b[i]])

(* ------------------------------------------------------- ring operations *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + carry IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
Add(a, b) == AddFrom(a, b, 1, 0)
Neg(a) == Add(BwNot(a), One(Len(a)))
Sub(a, b) == AddFrom(a, BwNot(b), 1, 1)

RECURSIVE SumProd(_, _, _, _)
SumProd(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + SumProd(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, carry) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == SumProd(a, b, k, 1) + carry IN <<s % 256>> \o MulFrom(a, b, k + 1, s \div 256)
Mul(a, b) == MulFrom(a, b, 1, 0)

(* -------------------------------------------------------------- ordering *)
RECURSIVE ULtFrom(_, _, _)
ULtFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtFrom(a, b, i - 1)
ULt(a, b) == ULtFrom(a, b, Len(a))
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)

(* ---------------------------------------------------------------- shifts *)
Byte(a, i) == IF i < 1 \/ i > Len(a) THEN 0 ELSE a[i]
Shl(a, n) == LET q == n \div 8  r == n % 8 IN
  TLCEval([i \in DOMAIN a |-> ((Byte(a, i - q) * 2^r) + (Byte(a, i - q - 1) * 2^r) \div 256) % 256])
Fill(a, i, f) == IF i > Len(a) THEN f ELSE a[i]
Shr(a, n, f) == LET q == n \div 8  r == n % 8 IN
  TLCEval([i \in DOMAIN a |-> (Fill(a, i + q, f) \div 2^r + Fill(a, i + q + 1, f) * 2^(8 - r)) % 256])
LShr(a, n) == Shr(a, n, 0)
AShr(a, n) == Shr(a, n, IF IsNeg(a) THEN 255 ELSE 0)
Amount(b) == b[1]   \* used only when the whole word is below the width

RECURSIVE PopFrom(_, _)
PopFrom(a, i) == IF i > 8 * Len(a) THEN 0
                 ELSE ((a[(i - 1) \div 8 + 1] \div 2^((i - 1) % 8)) % 2) + PopFrom(a, i + 1)
PopCount(a) == TLCEval([i \in DOMAIN a |-> IF i = 1 THEN PopFrom(a, 1) ELSE 0])

(* -------------------------------------------------------------- division *)
Bit(a, i) == (a[i \div 8 + 1] \div 2^(i % 8)) % 2
(* Schoolbook long division on magnitudes, one bit at a time; one extra byte *)
(* keeps the running remainder from overflowing.                             *)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r1 == TLCEval([Shl(r, 1) EXCEPT ![1] = @ + Bit(a, i)])
           ge == ~ULt(r1, b)
       IN LongDiv(a, b, i - 1, TLCEval(IF ge THEN [q EXCEPT ![i \div 8 + 1] = @ + 2^(i % 8)] ELSE q),
                  TLCEval(IF ge THEN Sub(r1, b) ELSE r1))
UDivRem(a, b) ==
  LET d == LongDiv(a, b \o <<0>>, 8 * Len(a) - 1, Zeros(Len(a)), Zeros(Len(a) + 1))
  IN <<d[1], SubSeq(d[2], 1, Len(a))>>
UDiv(a, b) == UDivRem(a, b)[1]
URem(a, b) == UDivRem(a, b)[2]
Mag(a) == IF IsNeg(a) THEN Neg(a) ELSE a
SDiv(a, b) == LET q == UDiv(Mag(a), Mag(b)) IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
SRem(a, b) == LET r == URem(Mag(a), Mag(b)) IN IF IsNeg(a) THEN Neg(r) ELSE r

(* ------------------------------------------------------------ conversion *)
Extend(a, n, f) == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE f])
Convert(a, signed, n) == Extend(a, n, IF signed /\ IsNeg(a) THEN 255 ELSE 0)

MinOf(signed, n) == IF signed THEN TLCEval([i \in 1..n |-> IF i = n THEN 128 ELSE 0]) ELSE Zeros(n)
MaxOf(signed, n) == TLCEval([i \in 1..n |-> IF i = n /\ signed THEN 127 ELSE 255])

(* ------------------------------------------------------------------ floats *)
(* [c |-> "nan"] | [c |-> "inf", neg] | [c |-> "fin", neg, m]: m is the       *)
(* magnitude in units of 2^-8 as a 12-byte word. Precision p = 24 or 53 bits. *)
FW == 12
Nan == [c |-> "nan", neg |-> FALSE, m |-> Zeros(FW)]
Inf(neg) == [c |-> "inf", neg |-> neg, m |-> Zeros(FW)]
Fin(neg, m) == [c |-> "fin", neg |-> neg, m |-> m]

RECURSIVE TopBit(_, _)
TopBit(m, i) == IF i < 0 \/ Bit(m, i) = 1 THEN i ELSE TopBit(m, i - 1)
(* Rounds a magnitude to p significant bits, ties to even. *)
Round(m, p) ==
  LET top == TopBit(m, 8 * FW - 1)
      drop == top + 1 - p
  IN IF drop <= 0 THEN m
     ELSE LET kept == LShr(m, drop)
              rest == Sub(m, Shl(kept, drop))
              half == Shl(One(FW), drop - 1)
              up == ULt(half, rest) \/ (rest = half /\ kept[1] % 2 = 1)
          IN Shl(IF up THEN Add(kept, One(FW)) ELSE kept, drop)

FOfInt(a, signed, p) ==
  LET neg == signed /\ IsNeg(a)
  IN Fin(neg, Round(Shl(Extend(IF neg THEN Neg(a) ELSE a, FW, 0), 8), p))
FNeg(x) == IF x.c = "nan" THEN x ELSE [x EXCEPT !.neg = ~@]
FRound(x, p) == IF x.c = "fin" THEN [x EXCEPT !.m = Round(@, p)] ELSE x
FAdd(x, y, p) ==
  IF x.c = "nan" \/ y.c = "nan" THEN Nan
  ELSE IF x.c = "inf" THEN (IF y.c = "inf" /\ x.neg # y.neg THEN Nan ELSE x)
  ELSE IF y.c = "inf" THEN y
  ELSE IF x.neg = y.neg THEN Fin(x.neg, Round(Add(x.m, y.m), p))
  ELSE IF ULt(y.m, x.m) THEN Fin(x.neg, Round(Sub(x.m, y.m), p))
  ELSE Fin(y.neg, Round(Sub(y.m, x.m), p))   \* the sign of a zero is not observed
FEq(x, y) == /\ x.c # "nan" /\ y.c # "nan" /\ x.c = y.c
             /\ \/ x.m = y.m /\ x.neg = y.neg
                \/ x.c = "fin" /\ IsZero(x.m) /\ IsZero(y.m)
FLt(x, y) ==
  /\ x.c # "nan" /\ y.c # "nan" /\ ~FEq(x, y)
  /\ CASE x.c = "inf" -> x.neg
       [] y.c = "inf" -> ~y.neg
       [] OTHER -> IF x.neg # y.neg THEN x.neg
                   ELSE IF x.neg THEN ULt(y.m, x.m) ELSE ULt(x.m, y.m)
(* Conversion to an integer truncates; defined only when the result fits. *)
FIntMag(x) == LShr(x.m, 8)
FFits(x, signed, n) ==
  x.c = "fin" /\ LET i == FIntMag(x) IN
    IF x.neg THEN (IF signed THEN ~ULt(Extend(Shl(One(n), 8 * n - 1), FW, 0), i) ELSE IsZero(i))
    ELSE ~ULt(Extend(MaxOf(signed, n), FW, 0), i)
FToInt(x, n) == LET i == Extend(SubSeq(FIntMag(x), 1, n), n, 0) IN IF x.neg THEN Neg(i) ELSE i
=============================================================================
