------------------------------ MODULE PersMap ------------------------------
(* Recorded branching histories of the persistent maps: vs is the sequence of all versions made so far
   (finite functions from keys to integers); an operation makes a new version from old ones or queries one.
   No operation changes an old version, so any old version may be queried at any time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.BATCH)
VARIABLES r, i, vs, done
vars == <<r, i, vs, done>>

R == Recs[r]
Ordered == R.kind = "ord"
Lt(a, b) == IF R.desc THEN b < a ELSE a < b
Seqd(f) == SetToSortSeq(DOMAIN f, Lt)
Str(n) == ToString(n)
B(x) == IF x THEN "t" ELSE "f"
Empty == [k \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Opt(f, k) == IF k \in DOMAIN f THEN <<Str(f[k])>> ELSE <<"-">>
KV(f, k) == Str(k) \o "=" \o Str(f[k])
LeastKey(f) == Seqd(f)[1]
GreatestKey(f) == Seqd(f)[Len(Seqd(f))]
(* the combining functions the driver passes: union* and intersection*: 10 a + b; difference*: a - b, dropped when even *)
Union(f, g, h(_, _)) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \notin DOMAIN f THEN g[k] ELSE IF k \notin DOMAIN g THEN f[k] ELSE h(f[k], g[k])]
Meet(f, g, h(_, _)) == [k \in DOMAIN f \cap DOMAIN g |-> h(f[k], g[k])]
(* the symmetric difference, a common key stays when keep(a, b) *)
Diff(f, g, keep(_, _), h(_, _)) ==
  [k \in {x \in DOMAIN f \cup DOMAIN g : x \in DOMAIN f \cap DOMAIN g => keep(f[x], g[x])} |->
     IF k \notin DOMAIN f THEN g[k] ELSE IF k \notin DOMAIN g THEN f[k] ELSE h(f[k], g[k])]

RECURSIVE Lex(_, _, _, _, _)
Lex(f, g, a, b, n) ==
  CASE n > Len(a) /\ n > Len(b) -> "eq"
    [] n > Len(a) -> "lt"
    [] n > Len(b) -> "gt"
    [] a[n] # b[n] -> IF Lt(a[n], b[n]) THEN "lt" ELSE "gt"
    [] f[a[n]] # g[b[n]] -> IF f[a[n]] < g[b[n]] THEN "lt" ELSE "gt"
    [] OTHER -> Lex(f, g, a, b, n + 1)

Enumerates(seq, f, s(_)) ==
  LET want == Seqd(f)
      w == [j \in DOMAIN want |-> s(want[j])]
  IN IF Ordered THEN seq = w
     ELSE /\ Len(seq) = Len(w)
          /\ \A j \in DOMAIN w : Cardinality({x \in DOMAIN seq : seq[x] = w[j]}) = Cardinality({x \in DOMAIN w : w[x] = w[j]})

Mk(f) == [new |-> <<f>>, ok |-> TRUE]
Ask(b) == [new |-> << >>, ok |-> b]

(* op on version h with arguments a, b; out: the observed answer *)
Do(op, h, a, b, out) ==
  LET f == vs[h + 1]
      g == vs[a + 1]
  IN CASE op = 1 -> Mk(Put(f, a, b))
       [] op = 2 -> Mk(Without(f, a))
       [] op = 3 -> Ask(out = Opt(f, a))
       [] op = 4 -> Ask(out = <<B(a \in DOMAIN f)>>)
       [] op = 5 -> Ask(out = <<B(DOMAIN f = {})>>)
       [] op = 6 -> Ask(out = <<Str(Cardinality(DOMAIN f))>>)
       [] op = 7 -> Ask(Enumerates(out, f, LAMBDA k : KV(f, k)))
       [] op = 8 -> Ask(Enumerates(out, f, Str))
       [] op = 9 -> Ask(Enumerates(out, f, LAMBDA k : Str(f[k])))
       [] op \in {10, 11, 13} -> Mk(f)
       [] op = 14 -> Ask(out = <<B(f = g), B(f # g)>>)
       [] op = 16 -> Mk(Put(f, a, b))
       [] op = 17 -> Mk(Empty)
       [] op = 18 -> Ask(out = IF DOMAIN f = {} THEN <<"-">> ELSE <<KV(f, LeastKey(f))>>)
       [] op = 19 -> Ask(out = IF DOMAIN f = {} THEN <<"-">> ELSE <<KV(f, GreatestKey(f))>>)
       [] op = 20 -> Mk(IF DOMAIN f = {} THEN f ELSE Without(f, LeastKey(f)))
       [] op = 21 -> Mk(IF DOMAIN f = {} THEN f ELSE Without(f, GreatestKey(f)))
       [] op = 22 -> Ask(f = g => out = <<"t">>)
       [] op = 23 -> Ask(out = <<Lex(f, g, Seqd(f), Seqd(g), 1)>>)
       [] op = 30 -> Mk(Union(f, g, LAMBDA x, y : x))
       [] op = 31 -> Mk(Union(f, g, LAMBDA x, y : 10 * (x % 100) + y))
       [] op = 32 -> Mk(Meet(f, g, LAMBDA x, y : x))
       [] op = 33 -> Mk(Meet(f, g, LAMBDA x, y : 10 * (x % 100) + y))
       [] op = 34 -> Mk(Diff(f, g, LAMBDA x, y : FALSE, LAMBDA x, y : x))
       [] op = 35 -> Mk(Diff(f, g, LAMBDA x, y : x < y, LAMBDA x, y : y - x))

Init == r \in DOMAIN Recs /\ i = 0 /\ vs = <<Empty>> /\ done = FALSE
Report(n) == PrintT(ToJson([id |-> R.id, n |-> n]))
Next ==
  /\ ~done
  /\ r' = r
  /\ IF i = Len(R.ops) THEN done' = TRUE /\ Report(i) /\ UNCHANGED <<i, vs>>
     ELSE LET o == R.ops[i + 1]
              d == Do(o[1], o[2], o[3], o[4], R.outs[i + 1])
          IN IF d.ok THEN i' = i + 1 /\ vs' = vs \o d.new /\ done' = FALSE
             ELSE done' = TRUE /\ Report(i) /\ UNCHANGED <<i, vs>>
Spec == Init /\ [][Next]_vars

(* old versions are final *)
Final == [][\A v \in DOMAIN vs : vs'[v] = vs[v]]_vars
=============================================================================
