------------------------------ MODULE MutMapMC ------------------------------
(* All histories over a small universe: the laws the collections promise, as invariants and action
   properties of MutMap itself. *)
EXTENDS MutMap
CONSTANTS K, V, MaxCells, MaxObjs
VARIABLES S, last
vars == <<S, last>>
H == {0, 1}

Ops == [op : {"ins"}, h : H, k : K, v : V] \cup [op : {"rem"}, h : H, k : K, v : {0}] \cup [op : {"poke"}, h : H, k : K, v : V]
       \cup [op : {"clear", "copy", "deep", "alias"}, h : H, k : {0}, v : {0}]
App(o) == CASE o.op = "ins" -> Put(S, o.h, o.k, o.v)
            [] o.op = "rem" -> Delete(S, o.h, o.k)
            [] o.op = "poke" -> IF Has(S, o.h, o.k) THEN Poke(S, o.h, o.k, o.v) ELSE S
            [] o.op = "clear" -> Clear(S, o.h)
            [] o.op = "copy" -> ShallowCopy(S, o.h, 1 - o.h)
            [] o.op = "deep" -> DeepCopy(S, o.h, 1 - o.h)
            [] o.op = "alias" -> Alias(S, o.h, 1 - o.h)

Init == S = Init0(2) /\ last = [op |-> "init", h |-> 0, k |-> 0, v |-> 0]
Next == \E o \in Ops : LET s == App(o) IN Len(s.cells) <= MaxCells /\ Len(s.objs) <= MaxObjs /\ S' = s /\ last' = o
Spec == Init /\ [][Next]_vars

TypeOK == \A o \in DOMAIN S.objs : DOMAIN S.objs[o] \subseteq K /\ \A k \in DOMAIN S.objs[o] : S.objs[o][k] \in DOMAIN S.cells
(* no cell is under two keys of one map *)
Injective == \A o \in DOMAIN S.objs : \A j, k \in DOMAIN S.objs[o] : S.objs[o][j] = S.objs[o][k] => j = k
After ==
  /\ last.op = "ins" => Has(S, last.h, last.k) /\ Val(S, last.h, last.k) = last.v
  /\ last.op = "rem" => ~Has(S, last.h, last.k)
  /\ last.op = "clear" => DOMAIN Obj(S, last.h) = {}
  /\ last.op \in {"copy", "deep", "alias"} => Same(S, 0, 1)
  /\ last.op = "deep" => \A k \in DOMAIN Obj(S, 0), j \in DOMAIN Obj(S, 1) : Obj(S, 0)[k] # Obj(S, 1)[j]
(* what happens to one map leaves the other alone, unless they share the object or the cell poked *)
Frame == [][\A h \in H :
              (h # last'.h /\ last'.op \in {"ins", "rem", "clear"} /\ S.hs[0] # S.hs[1])
                => Obj(S, h) = Obj(S', h) /\ \A k \in DOMAIN Obj(S, h) : Val(S, h, k) = Val(S', h, k)]_vars
=============================================================================
