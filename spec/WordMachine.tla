---------------------------- MODULE WordMachine ----------------------------
(* A one-accumulator machine over the primitive operations: each step        *)
(* applies one operation to the accumulator (the other operand is a constant *)
(* of the instruction) and records what it yields. Operations outside their  *)
(* domain (division by zero or of the minimum by -1, shifts by the width or  *)
(* more, floats that do not fit the integer) are refused: "undef".           *)
EXTENDS Word, Json, IOUtils, FiniteSets

Batch == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES id, pc, acc, out
vars == <<id, pc, acc, out>>
View == <<id, pc>>

(* acc: [fl |-> FALSE, signed, w] or [fl |-> TRUE, p, x] *)
I(s, w) == [fl |-> FALSE, signed |-> s, w |-> w, p |-> 0, x |-> Nan]
F(p, x) == [fl |-> TRUE, signed |-> FALSE, w |-> <<>>, p |-> p, x |-> x]
Fits(b) == /\ \A i \in 2..Len(b) : b[i] = 0
           /\ b[1] < 8 * Len(b)
DivOk(s, a, b) == ~IsZero(b) /\ ~(s /\ a = MinOf(TRUE, Len(a)) /\ b = Neg(One(Len(a))))

Bin(s, f, a, b) ==
  CASE f = "add" -> Add(a, b)
    [] f = "sub" -> Sub(a, b)
    [] f = "mul" -> Mul(a, b)
    [] f = "div" -> IF s THEN SDiv(a, b) ELSE UDiv(a, b)
    [] f = "rem" -> IF s THEN SRem(a, b) ELSE URem(a, b)
    [] f = "and" -> BwAnd(a, b)
    [] f = "or" -> BwOr(a, b)
    [] f = "xor" -> BwXor(a, b)
    [] f = "shl" -> Shl(a, Amount(b))
    [] f = "shr" -> IF s THEN AShr(a, Amount(b)) ELSE LShr(a, Amount(b))
    [] f = "min" -> IF (IF s THEN SLt(b, a) ELSE ULt(b, a)) THEN b ELSE a
    [] f = "max" -> IF (IF s THEN SLt(a, b) ELSE ULt(a, b)) THEN b ELSE a
BinOk(s, f, a, b) ==
  CASE f \in {"div", "rem"} -> DivOk(s, a, b)
    [] f \in {"shl", "shr"} -> Fits(b)
    [] OTHER -> TRUE
Lt(s, a, b) == IF s THEN SLt(a, b) ELSE ULt(a, b)
Cmp(f, lt, eq) ==
  CASE f = "lt" -> lt [] f = "le" -> lt \/ eq [] f = "eq" -> eq [] f = "ne" -> ~eq
FCmp(f, x, y) ==
  CASE f = "gt" -> FLt(y, x) [] f = "ge" -> FLt(y, x) \/ FEq(x, y) [] OTHER -> Cmp(f, FLt(x, y), FEq(x, y))
ICmp(f, s, a, b) ==
  CASE f = "gt" -> Lt(s, b, a) [] f = "ge" -> ~Lt(s, a, b) [] OTHER -> Cmp(f, Lt(s, a, b), a = b)
Un(s, f, a) ==
  CASE f = "not" -> BwNot(a)
    [] f = "negate" -> Neg(a)
    [] f = "abs" -> IF s /\ IsNeg(a) THEN Neg(a) ELSE a
    [] f = "succ" -> Add(a, One(Len(a)))
    [] f = "pred" -> Sub(a, One(Len(a)))
    [] f = "popcount" -> PopCount(a)

Undef == [k |-> "undef"]
Flag(b) == [k |-> "bool", b |-> b]
Word(s, w) == [k |-> "int", signed |-> s, w |-> w]
Float(p, x) == [k |-> "float", p |-> p, x |-> x]
Show(a) == IF a.fl THEN Float(a.p, a.x) ELSE Word(a.signed, a.w)

(* Result of instruction i on accumulator a: <<new accumulator, output>> *)
Go(a) == <<a, Show(a)>>
Stay(a, o) == <<a, o>>
Step(a, i) ==
  CASE i.k = "bin" /\ ~a.fl /\ Len(i.rhs) = Len(a.w) ->
         LET l == IF i.swap THEN i.rhs ELSE a.w  r == IF i.swap THEN a.w ELSE i.rhs IN
         IF BinOk(a.signed, i.f, l, r) THEN Go(I(a.signed, Bin(a.signed, i.f, l, r))) ELSE Stay(a, Undef)
    [] i.k = "cmp" /\ ~a.fl /\ Len(i.rhs) = Len(a.w) ->
         Stay(a, Flag(IF i.swap THEN ICmp(i.f, a.signed, i.rhs, a.w) ELSE ICmp(i.f, a.signed, a.w, i.rhs)))
    [] i.k = "un" /\ ~a.fl -> Go(I(a.signed, Un(a.signed, i.f, a.w)))
    [] i.k = "conv" /\ ~a.fl -> Go(I(i.signed, Convert(a.w, a.signed, i.n)))
    [] i.k = "tofloat" /\ ~a.fl -> Go(F(i.p, FOfInt(a.w, a.signed, i.p)))
    [] i.k = "fadd" /\ a.fl -> Go(F(a.p, IF i.swap THEN FAdd(i.x, a.x, a.p) ELSE FAdd(a.x, i.x, a.p)))
    [] i.k = "fsub" /\ a.fl -> Go(F(a.p, IF i.swap THEN FAdd(i.x, FNeg(a.x), a.p) ELSE FAdd(a.x, FNeg(i.x), a.p)))
    [] i.k = "fcmp" /\ a.fl -> Stay(a, Flag(IF i.swap THEN FCmp(i.f, i.x, a.x) ELSE FCmp(i.f, a.x, i.x)))
    [] i.k = "fself" /\ a.fl -> Stay(a, Flag(FCmp(i.f, a.x, a.x)))
    [] i.k = "fconv" /\ a.fl -> Go(F(i.p, FRound(a.x, i.p)))
    [] i.k = "toint" /\ a.fl -> IF FFits(a.x, i.signed, i.n) THEN Go(I(i.signed, FToInt(a.x, i.n))) ELSE Stay(a, Undef)
    [] OTHER -> Stay(a, Undef)

Init == /\ id \in DOMAIN Batch
        /\ pc = 1
        /\ acc = IF "x" \in DOMAIN Batch[id].init THEN F(Batch[id].init.p, Batch[id].init.x) ELSE I(Batch[id].init.signed, Batch[id].init.w)
        /\ out = <<Show(acc)>>
Next == /\ pc <= Len(Batch[id].prog)
        /\ LET r == Step(acc, Batch[id].prog[pc]) IN acc' = r[1] /\ out' = Append(out, r[2])
        /\ pc' = pc + 1
        /\ (pc' > Len(Batch[id].prog) => PrintT(ToJson([id |-> Batch[id].id, out |-> out'])))
        /\ UNCHANGED id
Spec == Init /\ [][Next]_vars

BytesOk == ~acc.fl => \A i \in DOMAIN acc.w : acc.w[i] \in 0..255
Precise == acc.fl /\ acc.x.c = "fin" => Round(acc.x.m, acc.p) = acc.x.m
=============================================================================
