---------------------------- MODULE MutMapTrace ----------------------------
(* Recorded histories of the real collections against MutMap: one behaviour per history; a step is one
   operation with its observed answer. kind: "hash" (any enumeration order) or "ord"; desc: the key order
   is descending; set: the collection is a set. Verdict: the number of accepted steps. *)
EXTENDS MutMap, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, i, S, done
vars == <<r, i, S, done>>

R == Recs[r]
Ordered == R.kind = "ord"
Lt(a, b) == IF R.desc THEN b < a ELSE a < b
Seqd(f) == SetToSortSeq(DOMAIN f, Lt)
Str(n) == ToString(n)
None == <<"-">>
B(x) == IF x THEN "t" ELSE "f"
KV(s, h, k) == IF R.set THEN Str(k) ELSE Str(k) \o "=" \o Str(Val(s, h, k))

RECURSIVE LexFrom(_, _, _, _, _, _)
LexFrom(s, h, g, a, b, n) ==
  CASE n > Len(a) /\ n > Len(b) -> "eq"
    [] n > Len(a) -> "lt"
    [] n > Len(b) -> "gt"
    [] a[n] # b[n] -> IF Lt(a[n], b[n]) THEN "lt" ELSE "gt"
    [] ~R.set /\ Val(s, h, a[n]) # Val(s, g, b[n]) -> IF Val(s, h, a[n]) < Val(s, g, b[n]) THEN "lt" ELSE "gt"
    [] OTHER -> LexFrom(s, h, g, a, b, n + 1)

SameC(s, h, g) == IF R.set THEN DOMAIN Obj(s, h) = DOMAIN Obj(s, g) ELSE Same(s, h, g)

(* is seq an enumeration of f(k) over the keys of handle h? *)
Enumerates(seq, h, f(_)) ==
  LET want == Seqd(Obj(S, h))
      w == [j \in DOMAIN want |-> f(want[j])]
  IN IF Ordered THEN seq = w
     ELSE /\ Len(seq) = Len(w)
          /\ \A j \in DOMAIN w : Cardinality({x \in DOMAIN seq : seq[x] = w[j]}) = Cardinality({x \in DOMAIN w : w[x] = w[j]})

(* <<next state, is the answer right>> *)
Do(op, h, a, b, out) ==
  LET f == Obj(S, h)
      old == IF R.set THEN <<B(a \in DOMAIN f)>> ELSE IF a \in DOMAIN f THEN <<Str(Val(S, h, a))>> ELSE None
      first == Seqd(f)[1]
      last == Seqd(f)[Len(Seqd(f))]
  IN CASE op \in {1, 16} -> IF R.set
                            THEN <<IF a \in DOMAIN f THEN S ELSE Put(S, h, a, 0), out = <<B(a \notin DOMAIN f)>> >>
                            ELSE <<Put(S, h, a, b), out = old>>
       [] op = 2 -> <<Delete(S, h, a), out = old>>
       [] op = 3 -> <<S, out = old>>
       [] op = 4 -> <<S, out = <<B(a \in DOMAIN f)>> >>
       [] op = 5 -> <<S, out = <<Str(Cardinality(DOMAIN f)), B(DOMAIN f = {})>> >>
       [] op = 6 -> <<Clear(S, h), out = << >> >>
       [] op = 7 -> <<S, Enumerates(out, h, LAMBDA k : KV(S, h, k))>>
       [] op = 8 -> <<S, Enumerates(out, h, Str)>>
       [] op = 9 -> <<S, Enumerates(out, h, LAMBDA k : Str(Val(S, h, k)))>>
       [] op = 10 -> <<ShallowCopy(S, h, a), out = << >> >>
       [] op = 11 -> <<DeepCopy(S, h, a), out = << >> >>
       [] op = 12 -> <<Alias(S, h, a), out = << >> >>
       [] op = 13 -> <<ShallowCopy(S, h, a), out = << >> >>
       [] op = 14 -> <<S, out = <<B(SameC(S, h, a)), B(~SameC(S, h, a))>> >>
       [] op = 15 -> IF a \in DOMAIN f THEN <<Poke(S, h, a, b), out = <<"t">> >> ELSE <<S, out = <<"f">> >>
       [] op \in {17, 24} -> <<Fresh(S, h, Empty), out = << >> >>
       [] op = 25 -> <<S, out = << >> >>
       [] op = 18 -> <<S, out = IF DOMAIN f = {} THEN None ELSE <<KV(S, h, first)>> >>
       [] op = 19 -> <<S, out = IF DOMAIN f = {} THEN None ELSE <<KV(S, h, last)>> >>
       [] op = 20 -> IF DOMAIN f = {} THEN <<S, out = None>> ELSE <<Delete(S, h, first), out = <<KV(S, h, first)>> >>
       [] op = 21 -> IF DOMAIN f = {} THEN <<S, out = None>> ELSE <<Delete(S, h, last), out = <<KV(S, h, last)>> >>
       [] op = 22 -> <<S, SameC(S, h, a) => out = <<"t">> >>
       [] op = 23 -> <<S, out = <<LexFrom(S, h, a, Seqd(f), Seqd(Obj(S, a)), 1)>> >>

Init == r \in DOMAIN Recs /\ i = 0 /\ S = Init0(3) /\ done = FALSE

Report(n) == PrintT(ToJson([id |-> R.id, n |-> n]))

Next ==
  /\ ~done
  /\ r' = r
  /\ IF i = Len(R.ops) THEN done' = TRUE /\ Report(i) /\ UNCHANGED <<i, S>>
     ELSE LET o == R.ops[i + 1]
              d == Do(o[1], o[2], o[3], o[4], R.outs[i + 1])
          IN IF d[2] THEN i' = i + 1 /\ S' = d[1] /\ done' = FALSE
             ELSE done' = TRUE /\ Report(i) /\ UNCHANGED <<i, S>>

Spec == Init /\ [][Next]_vars
=============================================================================
