------------------------------ MODULE WordLaws ------------------------------
(* Word.tla against plain integer arithmetic, for every pair of bytes, and   *)
(* against itself: wide words built from the same operands.                  *)
EXTENDS Word, TLC
CONSTANTS As, Bs
VARIABLES a, b
Val(w) == w[1]
SVal(w) == IF w[1] >= 128 THEN w[1] - 256 ELSE w[1]
Init == a \in As /\ b = 0
Next == b' \in {x \in Bs : x > b /\ \A y \in Bs : y > b => x <= y} /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
X == <<a>>
Y == <<b>>
Trunc(x, y) == IF (x < 0) # (y < 0) THEN -((IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y))
               ELSE (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
Wide(w) == Convert(w, TRUE, 4)
Narrow(w) == SubSeq(w, 1, 1)
Laws ==
  /\ Val(Add(X, Y)) = (a + b) % 256
  /\ Val(Sub(X, Y)) = (a - b) % 256
  /\ Val(Mul(X, Y)) = (a * b) % 256
  /\ ULt(X, Y) = (a < b)
  /\ SLt(X, Y) = (SVal(X) < SVal(Y))
  /\ b # 0 => /\ Val(UDiv(X, Y)) = a \div b
              /\ Val(URem(X, Y)) = a % b
              /\ ~(SVal(X) = -128 /\ SVal(Y) = -1) =>
                   /\ SVal(SDiv(X, Y)) = Trunc(SVal(X), SVal(Y))
                   /\ SVal(SRem(X, Y)) = SVal(X) - Trunc(SVal(X), SVal(Y)) * SVal(Y)
              \* truncation is a ring homomorphism, and division commutes with sign extension
              /\ SDiv(Wide(X), Wide(Y)) = (IF SVal(X) = -128 /\ SVal(Y) = -1 THEN <<128, 0, 0, 0>> ELSE Wide(SDiv(X, Y)))
  /\ Narrow(Mul(Wide(X), Wide(Y))) = Mul(X, Y)
  /\ Narrow(Add(Wide(X), Wide(Y))) = Add(X, Y)
  /\ b < 8 => /\ Val(Shl(X, b)) = (a * 2^b) % 256
              /\ Val(LShr(X, b)) = a \div 2^b
              /\ SVal(AShr(X, b)) = SVal(X) \div 2^b
  /\ b < 32 => /\ LShr(Shl(Convert(X, FALSE, 5), b), b) = Convert(X, FALSE, 5)
  /\ BwXor(BwAnd(X, Y), BwOr(X, Y)) = BwXor(X, Y)
  /\ Val(PopCount(X)) + Val(PopCount(BwNot(X))) = 8
(* Floats: rounding a 16-bit magnitude to p bits against the definition. *)
FlLaws ==
  LET v == 256 * a + b
      m == Extend(<<b, a>>, FW, 0)
      R(p) == Round(m, p)
      r3 == R(3)[1] + 256 * R(3)[2] + 65536 * R(3)[3]
  IN /\ R(16) = m
     /\ LET t == TopBit(m, 95)  u == IF t < 3 THEN 1 ELSE 2^(t - 2)
        IN /\ r3 % u = 0
           /\ 2 * (IF r3 > v THEN r3 - v ELSE v - r3) <= u
           /\ 2 * (IF r3 > v THEN r3 - v ELSE v - r3) = u => (r3 \div u) % 2 = 0
     /\ FEq(FAdd(Fin(FALSE, m), Fin(TRUE, m), 53), Fin(FALSE, Zeros(FW)))
     /\ FLt(Fin(TRUE, m), Fin(FALSE, m)) = ~IsZero(m)
=============================================================================
