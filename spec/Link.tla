-------------------------------- MODULE Link --------------------------------
(* Objects of code and data, their symbols, and what running the code does.

   A definition stands for itself: it is <<step, object, item>>, or <<0, 0, k>> for what lies outside. Addresses are
   definitions with an offset, so nothing here depends on where things are placed, in which order, or how far apart.
   A reference means the definition of its label in the same object, else the one definition of its name. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))

NoDef == <<0, 0, 0>>
(* outside: functions 1 and 2 and data 5 are out of reach of 32-bit offsets, 3 and 4 and data 6 are not *)
ExtVal == <<1001, 1002, 1003, 1004>>
Num(n) == [n |-> n, d |-> NoDef, w |-> 0]
Ext(k) == <<0, 0, k>>
Outside == [x \in {Ext(k) : k \in 1..6} |-> [k |-> IF x[3] <= 4 THEN "ext" ELSE "data", n |-> IF x[3] <= 4 THEN ExtVal[x[3]] ELSE 0, ops |-> <<>>]]
OutsideMem == (Ext(5) :> <<Num(2001), Num(2002), Num(2003)>>) @@ (Ext(6) :> <<Num(2011), Num(2012), Num(2013)>>)
Far(d, elf) == ~elf /\ d \in {Ext(1), Ext(2), Ext(5)}

Direct == {"call", "callreg", "callw", "load", "loadx", "loadlea", "loadadd", "loadw", "mod", "store", "storer", "storex", "storelea", "tail", "tailif", "tailshort"}
Table == {"callat", "callregat", "callwat", "loadat", "storeat", "tailat"}
Calls == {"call", "callat", "callreg", "callregat"}
Loads == {"load", "loadx", "loadlea", "loadadd", "loadat"}
Stores == {"store", "storer", "storex", "storelea", "storeat"}
Tails == {"tail", "tailat", "tailif", "tailshort"}

------------------------------------------------------------------------------
(* running code: D the definitions, m the memory *)
RECURSIVE CallD(_, _, _)
Op(D, a, o) ==
  LET m == a.m
      Then(r) == [v |-> a.v + r.v, m |-> r.m] IN
  CASE o.o \in {"const", "loop"} -> Then([v |-> o.n, m |-> m])
    [] o.o \in {"skip", "mod"} -> a                          \* mod: constants are at multiples of 16
    [] o.o \in Calls -> Then(CallD(D, o.d, m))
    [] o.o \in {"callw", "callwat"} -> Then(CallD(D, m[o.d][o.w + 1].d, m))
    [] o.o \in Loads -> Then([v |-> m[o.d][o.w + 1].n, m |-> m])
    [] o.o = "loadw" -> LET p == m[o.d][o.w + 1] IN Then([v |-> m[p.d][p.w + 1].n, m |-> m])
    [] o.o \in Stores -> [v |-> a.v, m |-> [m EXCEPT ![o.d][o.w + 1] = Num(o.n)]]
    [] o.o \in Tails -> CallD(D, o.d, m)                     \* the last one: its answer is the answer
CallD(D, d, m) == IF D[d].k = "ext" THEN [v |-> D[d].n, m |-> m]
                  ELSE FoldLeft(LAMBDA a, o : TLCEval(Op(D, a, o)), [v |-> 0, m |-> m], D[d].ops)

------------------------------------------------------------------------------
(* loading objects together *)
Own(o) == {o.items[j].l : j \in DOMAIN o.items}
ItemOf(o, l) == CHOOSE j \in DOMAIN o.items : o.items[j].l = l
Exports(o) == {j \in DOMAIN o.items : o.items[j].g}
NameOf(o, j) == o.labels[o.items[j].l]
Named(o) == {l \in DOMAIN o.labels : o.labels[l] # "" /\ l \notin Own(o)}

Pairs(os) == {<<k, j>> : k \in DOMAIN os, j \in UNION {DOMAIN os[k].items : k \in DOMAIN os}}
Globals(os) == {p \in Pairs(os) : p[2] \in DOMAIN os[p[1]].items /\ os[p[1]].items[p[2]].g}
GName(os, p) == NameOf(os[p[1]], p[2])

(* the names known once objects os are loaded at step s *)
Wanted(os) == UNION {{os[k].labels[l] : l \in Named(os[k])} : k \in DOMAIN os}
Bound(syms, res, os, s) ==
  LET own == {GName(os, p) : p \in Globals(os)}
      found == {n \in Wanted(os) : n \notin own /\ n \notin DOMAIN syms /\ n \in DOMAIN res}
  IN syms @@ [n \in own |-> LET p == CHOOSE p \in Globals(os) : GName(os, p) = n IN <<s, p[1], p[2]>>] @@ [n \in found |-> Ext(res[n])]
Undefined(syms, res, os) == {n \in Wanted(os) : n \notin DOMAIN syms /\ n \notin DOMAIN res /\ n \notin {GName(os, p) : p \in Globals(os)}}
Duplicate(syms, os) ==
  {n \in DOMAIN syms : \E p \in Globals(os) : GName(os, p) = n}
  \cup {GName(os, p) : p \in {p \in Globals(os) : \E q \in Globals(os) : p # q /\ GName(os, p) = GName(os, q)}}

Ref(syms, o, l, s, k) == IF l \in Own(o) THEN <<s, k, ItemOf(o, l)>> ELSE syms[o.labels[l]]
OpOf(syms, o, x, s, k) == IF x.l = 0 THEN x ELSE x @@ [d |-> Ref(syms, o, x.l, s, k)]
WordOf(syms, o, x, s, k) == IF x.l = 0 THEN Num(x.n) ELSE [n |-> 0, d |-> Ref(syms, o, x.l, s, k), w |-> x.w]
Code(syms, os, s) == [d \in {<<s, p[1], p[2]>> : p \in {p \in Pairs(os) : p[2] \in DOMAIN os[p[1]].items}} |->
  LET o == os[d[2]]  i == o.items[d[3]] IN
  IF i.sec = "text" THEN [k |-> "fn", n |-> 0, ops |-> [j \in DOMAIN i.ops |-> OpOf(syms, o, i.ops[j], s, d[2])]]
  ELSE [k |-> "data", n |-> 0, ops |-> <<>>]]
Data(syms, os, s) == [d \in {<<s, p[1], p[2]>> : p \in {p \in Pairs(os) : p[2] \in DOMAIN os[p[1]].items /\ os[p[1]].items[p[2]].sec # "text"}} |->
  LET o == os[d[2]]  i == o.items[d[3]] IN [j \in DOMAIN i.words |-> WordOf(syms, o, i.words[j], s, d[2])]]

AllOps(os) == UNION {UNION {{<<k, os[k].items[j].ops[n]>> : n \in DOMAIN os[k].items[j].ops} : j \in DOMAIN os[k].items} : k \in DOMAIN os}
(* offsets of 32 bits do not reach what is far away *)
TooFar(syms, os, s, elf) == \E x \in AllOps(os) : x[2].o \in Direct /\ Far(Ref(syms, os[x[1]], x[2].l, s, x[1]), elf)
(* short jumps may not reach their target; a label without a name cannot be in the table of addresses *)
MayBeFar(os) == \E x \in AllOps(os) : x[2].o = "tailshort"
Unnamed(os) == \E x \in AllOps(os) : x[2].o \in Table /\ os[x[1]].labels[x[2].l] = ""

Answers(st, os, s, elf) ==
  LET u == Undefined(st.syms, st.res, os)  d == Duplicate(st.syms, os) IN
  IF u # {} \/ d # {}
  THEN [ok |-> FALSE, as |-> {<<"undefined", n>> : n \in u} \cup {<<"duplicate", n>> : n \in d} \cup (IF MayBeFar(os) THEN {<<"range", "">>} ELSE {})]
  ELSE LET b == TLCEval(Bound(st.syms, st.res, os, s))
           far == TLCEval(TooFar(b, os, s, elf)) IN
       [ok |-> ~far,
        as |-> (IF far \/ MayBeFar(os) THEN {<<"range", "">>} ELSE {}) \cup (IF Unnamed(os) THEN {<<"section", "">>} ELSE {})]

------------------------------------------------------------------------------
(* a recorded history: steps and the answers to them *)
VARIABLES i, j, st, bad
R == Batch[i]
Start == [D |-> Outside, m |-> OutsideMem, syms |-> <<>>, res |-> <<>>]
Fresh(x) == [Start EXCEPT !.res = x.res, !.syms = [n \in {} |-> NoDef]]
Init == i \in 1..Len(Batch) /\ j = 0 /\ bad = FALSE /\ st = Fresh(Batch[i])

Stay(ok) == [ok |-> ok, st |-> st]
Value(a, v) == a.r = "v" /\ a.v = v
Do(x, a) ==
  CASE x.o = "reg" ->
         IF x.name \in DOMAIN st.syms THEN Stay(a.r = "duplicate" /\ a.s = x.name)
         ELSE [ok |-> a.r = "ok", st |-> [st EXCEPT !.syms = @ @@ (x.name :> Ext(x.ext))]]
    [] x.o \in {"call", "peek", "poke"} /\ x.name \notin DOMAIN st.syms -> Stay(a.r = "none")
    [] x.o = "call" -> LET r == TLCEval(CallD(st.D, st.syms[x.name], st.m)) IN [ok |-> Value(a, r.v), st |-> [st EXCEPT !.m = r.m]]
    [] x.o = "peek" -> Stay(Value(a, st.m[st.syms[x.name]][x.w + 1].n))
    [] x.o = "poke" -> [ok |-> a.r = "ok", st |-> [st EXCEPT !.m[st.syms[x.name]][x.w + 1] = Num(x.n)]]
    [] x.o = "objs" ->
         LET w == TLCEval(Answers(st, x.objs, j + 1, R.elf)) IN
         IF a.r = "ok"
         THEN IF ~w.ok THEN Stay(FALSE)
              ELSE LET b == TLCEval(Bound(st.syms, st.res, x.objs, j + 1)) IN
                   [ok |-> TRUE, st |-> [st EXCEPT !.syms = b, !.D = TLCEval(@ @@ Code(b, x.objs, j + 1)), !.m = TLCEval(@ @@ Data(b, x.objs, j + 1))]]
         ELSE Stay(<<a.r, a.s>> \in w.as)

Next == /\ ~bad /\ j < Len(R.out)
        /\ LET x == TLCEval(Do(R.steps[j + 1], R.out[j + 1])) IN
           IF x.ok THEN j' = j + 1 /\ st' = x.st /\ bad' = FALSE ELSE j' = j /\ st' = st /\ bad' = TRUE
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j, st, bad>>

(* every name means a definition there is, and only exported ones have names *)
Meant == \A n \in DOMAIN st.syms : st.syms[n] \in DOMAIN st.D
Private == \A n \in DOMAIN st.syms :
  LET d == st.syms[n] IN d[1] = 0 \/ (LET o == R.steps[d[1]].objs[d[2]] IN o.items[d[3]].g /\ NameOf(o, d[3]) = n)
(* no reference is left open, and addresses in data point at something *)
Closed == /\ \A d \in DOMAIN st.D : \A n \in DOMAIN st.D[d].ops : st.D[d].ops[n].l = 0 \/ st.D[d].ops[n].d \in DOMAIN st.D
          /\ \A d \in DOMAIN st.m : \A n \in DOMAIN st.m[d] : st.m[d][n].d = NoDef \/ st.m[d][n].d \in DOMAIN st.D
(* different names from different definitions, outside apart *)
Apart == \A n, k \in DOMAIN st.syms : n # k /\ st.syms[n][1] # 0 => st.syms[n] # st.syms[k]
Report == (bad \/ j = Len(R.out)) => PrintT(ToJson([id |-> R.id, n |-> j, bad |-> bad]))
==============================================================================
