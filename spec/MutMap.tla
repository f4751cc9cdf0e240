------------------------------- MODULE MutMap -------------------------------
(* The abstract state of the mutable collections of std (hash-map, ord-map, hash-set, ord-set): handles
   refer to map objects, map objects send keys to reference cells, cells hold integers. Copies make
   the sharing observable: an aliased handle shares the object, a shallow copy shares the cells, a deep
   copy shares nothing. A set is a map whose cells are ignored.

   S == [hs |-> handles -> object, objs |-> Seq of (keys -> cell), cells |-> Seq(Int)]                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty == [k \in {} |-> 0]
Init0(n) == [hs |-> [h \in 0..(n - 1) |-> h + 1], objs |-> [o \in 1..n |-> Empty], cells |-> << >>]

Obj(S, h) == S.objs[S.hs[h]]
Val(S, h, k) == S.cells[Obj(S, h)[k]]
Has(S, h, k) == k \in DOMAIN Obj(S, h)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

SetObj(S, h, f) == [S EXCEPT !.objs[S.hs[h]] = f]
Put(S, h, k, v) ==
  [SetObj(S, h, (k :> (Len(S.cells) + 1)) @@ Obj(S, h)) EXCEPT !.cells = Append(@, v)]
Delete(S, h, k) == SetObj(S, h, Without(Obj(S, h), k))
Clear(S, h) == SetObj(S, h, Empty)
Fresh(S, g, f) == [S EXCEPT !.objs = Append(@, f), !.hs[g] = Len(S.objs) + 1]
ShallowCopy(S, h, g) == Fresh(S, g, Obj(S, h))
Sorted(f) == SetToSortSeq(DOMAIN f, <)
DeepCopy(S, h, g) ==
  LET f == Obj(S, h)
      ks == Sorted(f)
      n == Len(S.cells)
  IN [Fresh(S, g, [k \in DOMAIN f |-> n + (CHOOSE i \in DOMAIN ks : ks[i] = k)])
        EXCEPT !.cells = @ \o [i \in DOMAIN ks |-> S.cells[f[ks[i]]]]]
(* collecting the elements of h again: a new object over the same cells *)
Alias(S, h, g) == [S EXCEPT !.hs[g] = S.hs[h]]
Poke(S, h, k, v) == [S EXCEPT !.cells[Obj(S, h)[k]] = v]

Same(S, h, g) ==
  /\ DOMAIN Obj(S, h) = DOMAIN Obj(S, g)
  /\ \A k \in DOMAIN Obj(S, h) : Val(S, h, k) = Val(S, g, k)
=============================================================================
