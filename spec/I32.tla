-------------------------------- MODULE I32 --------------------------------
(* 32-bit two's-complement arithmetic inside TLC's own 32-bit integers:     *)
(* no intermediate result leaves the range.                                 *)
EXTENDS Integers
MAX32 == 2147483647
MIN32 == -2147483647 - 1

(* a + b wrapped *)
Add32(a, b) == IF a >= 0 /\ b > MAX32 - a THEN (a + MIN32) + (b + MIN32)
               ELSE IF a < 0 /\ b < MIN32 - a THEN ((a - MIN32) + (b - MIN32))
               ELSE a + b
Neg32(a) == IF a = MIN32 THEN MIN32 ELSE -a
Sub32(a, b) == IF b = MIN32 THEN (IF a >= 0 THEN a + MIN32 ELSE a - MIN32) ELSE Add32(a, -b)
(* shifting left by doubling *)
RECURSIVE Shl32(_, _)
Shl32(a, n) == IF n = 0 THEN a ELSE Shl32(Add32(a, a), n - 1)
(* product: 12-bit pieces of a times b's pieces, all partial results < 2^26 *)
Piece(a, i) == IF i = 0 THEN a % 4096 ELSE IF i = 1 THEN (a \div 4096) % 4096 ELSE (a \div 16777216)
Mul32(a, b) == LET a0 == Piece(a, 0)  a1 == Piece(a, 1)  a2 == Piece(a, 2)
                   b0 == Piece(b, 0)  b1 == Piece(b, 1)  b2 == Piece(b, 2)
               IN Add32(a0 * b0, Add32(Shl32(a0 * b1 + a1 * b0, 12), Shl32(a0 * b2 + a1 * b1 + a2 * b0, 24)))
Abs(a) == IF a < 0 THEN -a ELSE a
(* truncating division; MIN32 / x is never needed with x = -1 *)
Quo32(a, b) == IF b = MIN32 THEN (IF a = MIN32 THEN 1 ELSE 0)
               ELSE IF a = MIN32
                    THEN IF b = -1 THEN MIN32 ELSE
                         IF b > 0 THEN -(1 + (Abs(a + b) \div b)) ELSE 1 + (Abs(a - b) \div (-b))
               ELSE IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Rem32(a, b) == Sub32(a, Mul32(Quo32(a, b), b))
=============================================================================
