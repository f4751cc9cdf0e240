-------------------------------- MODULE Files --------------------------------
(* Paths, files and directories (std/io) over a small file system.            *)
(*                                                                            *)
(* The file system: a function from places (sequences of names, the empty one  *)
(* is the working directory) to directories, links and files; a file refers to *)
(* contents by number, so that an open file survives its removal.  An open     *)
(* file has a position and what was written to it and is not yet stored.        *)
(* Names and contents are sequences of bytes.                                  *)
EXTENDS Utf8, FiniteSets, SequencesExt, TLC, Json, IOUtils

(* ---------------------------------------------------------------- paths *)
SLASH == 47
DOT == 46
Abs(p) == p # << >> /\ p[1] = SLASH
Names(p) == SelectSeq(Split(<<SLASH>>, p), LAMBDA t : t # << >>)
One == <<DOT>>
Two == <<DOT, DOT>>
RECURSIVE Trim(_)
Trim(p) == IF p # << >> /\ p[Len(p)] = SLASH THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
(* where the last name starts in Trim(p): its offset *)
LastSlash(b) == LET at == {i \in DOMAIN b : b[i] = SLASH} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
BaseName(p) == LET b == Trim(p) IN IF p = << >> THEN << >> ELSE IF b = << >> THEN <<SLASH>> ELSE From(b, LastSlash(b))
DirName(p) ==
  LET b == Trim(p)  d == Trim(SubSeq(b, 1, LastSlash(b)))
  IN IF d # << >> THEN d ELSE IF Abs(p) THEN <<SLASH>> ELSE One
(* offset of the dot before the extension of the last name in Trim(p): 0 if there is none *)
ExtDot(p) ==
  LET b == Trim(p)  l == LastSlash(b)
      at == {i \in (l + 2)..Len(b) : b[i] = DOT}
  IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
(* the extension of . and .. is nobody's business *)
HasName(p) == BaseName(p) \notin {One, Two}
NoExt(p) == LET b == Trim(p)  e == ExtDot(p) IN IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1)
Tail0(p) == From(p, Len(Trim(p)))
WithExt(p, e) == NoExt(p) \o <<DOT>> \o e \o Tail0(p)
JoinPath(p, q) == IF Abs(q) \/ p = << >> THEN q ELSE Trim(p) \o <<SLASH>> \o q
(* the names of a path from directory names d *)
RECURSIVE Walk(_, _)
Walk(d, ns) ==
  IF ns = << >> THEN d
  ELSE Walk(IF ns[1] = One THEN d ELSE IF ns[1] = Two THEN (IF d = << >> THEN d ELSE SubSeq(d, 1, Len(d) - 1)) ELSE Append(d, ns[1]), Tail(ns))
Canon(d, p) == Walk(IF Abs(p) THEN << >> ELSE d, Names(p))
Absolute(ns) == IF ns = << >> THEN <<SLASH>> ELSE FoldLeft(LAMBDA a, n : a \o <<SLASH>> \o n, << >>, ns)
Str(s) == Append(s, -1)
Comp(n) == IF n = One THEN <<-5>> ELSE IF n = Two THEN <<-6>> ELSE <<-3>> \o Str(n)

(* ----------------------------------------------------------- file system *)
(* S: tree, data, fs (open files; the last one is that of with-file!), ds (open directories) *)
ClosedFile == [open |-> FALSE, i |-> 0, m |-> << >>, pos |-> 0, buf |-> << >>, eof |-> FALSE, bad |-> FALSE]
ClosedDir == [open |-> FALSE, at |-> << >>, left |-> {}, dirty |-> FALSE]
OKAY == -9100
CLOSED == -9001
NOTFOUND == -9002
EXISTS == -9004
INVALID == -9005
BADDATA == -9006
EOFERR == -9007
OTHERERR == -9008
Dir == [t |-> "d", i |-> 0]
Link == [t |-> "l", i |-> 0]
(* the place of a path: [e, at] with e = 0 or an error; all but the last name must be directories *)
RECURSIVE Resolve(_, _, _)
Resolve(tree, at, ns) ==
  IF ns = << >> THEN [e |-> 0, at |-> at]
  ELSE IF at \notin DOMAIN tree THEN [e |-> NOTFOUND, at |-> at]
  ELSE IF tree[at].t # "d" THEN [e |-> OTHERERR, at |-> at]
  ELSE Resolve(tree, IF ns[1] = One THEN at ELSE IF ns[1] = Two THEN SubSeq(at, 1, Len(at) - 1) ELSE Append(at, ns[1]), Tail(ns))
Place(tree, p) == IF p = << >> THEN [e |-> NOTFOUND, at |-> << >>] ELSE Resolve(tree, << >>, Names(p))
Kids(tree, at) == {x[Len(x)] : x \in {y \in DOMAIN tree : Len(y) = Len(at) + 1 /\ SubSeq(y, 1, Len(at)) = at}}
Under(tree, at) == {y \in DOMAIN tree : Len(y) >= Len(at) /\ SubSeq(y, 1, Len(at)) = at}
Without(tree, xs) == [x \in DOMAIN tree \ xs |-> tree[x]]
Touch(S, at) == [S EXCEPT !.ds = [h \in DOMAIN S.ds |-> IF S.ds[h].open /\ S.ds[h].at = at THEN [S.ds[h] EXCEPT !.dirty = TRUE] ELSE S.ds[h]]]
Parent(at) == SubSeq(at, 1, Len(at) - 1)
(* nothing may be removed or created below an open directory that is read on; such directories are dirty *)
Removed(S, xs) == FoldSet(LAMBDA x, T : Touch(Touch(T, Parent(x)), x), [S EXCEPT !.tree = Without(S.tree, xs)], xs)
Users(S, i, h) == {g \in DOMAIN S.fs : g # h /\ S.fs[g].open /\ S.fs[g].i = i}
Pending(S, i) == \E g \in DOMAIN S.fs : S.fs[g].open /\ S.fs[g].i = i /\ S.fs[g].buf # << >>
Stored(S, h) == LET f == S.fs[h] IN IF f.buf = << >> THEN S ELSE [S EXCEPT !.data[f.i] = @ \o f.buf, !.fs[h].buf = << >>]
ShutFile(S, h) == [Stored(S, h) EXCEPT !.fs[h] = ClosedFile]
R == 114
W == 119
A == 97

(* Results: [s, v, k]; k says how v and the recorded output are compared: "eq"; "names": the rest of v in any order;  *)
(* "any": not specified, the operation is not to be carried out; "trim": up to trailing slashes.                      *)
Res(S, v) == [s |-> S, v |-> v, k |-> "eq"]
Unsaid(S) == [s |-> S, v |-> << >>, k |-> "any"]
Open(S0, h, p, m) ==
  LET S == ShutFile(S0, h)
      w == Place(S.tree, p)
      there == w.at \in DOMAIN S.tree
      i == S.tree[w.at].i
      New(T, j) == [T EXCEPT !.fs[h] = [ClosedFile EXCEPT !.open = TRUE, !.i = j, !.m = m]]
  IN IF m \notin {<<R>>, <<W>>, <<A>>} THEN Res(S, <<INVALID>>)
     ELSE IF w.e # 0 THEN Res(S, <<w.e>>)
     ELSE IF there /\ S.tree[w.at].t = "l" THEN Unsaid(S)
     ELSE IF there /\ S.tree[w.at].t = "d" THEN (IF m = <<R>> THEN Res(New(S, 0), <<OKAY>>) ELSE Res(S, <<OTHERERR>>))
     ELSE IF there THEN
          IF m = <<R>> THEN (IF \E g \in Users(S, i, h) : S.fs[g].m # <<R>> THEN Unsaid(S) ELSE Res(New(S, i), <<OKAY>>))
          ELSE IF Users(S, i, h) # {} THEN Unsaid(S)
          ELSE Res(New(IF m = <<W>> THEN [S EXCEPT !.data[i] = << >>] ELSE S, i), <<OKAY>>)
     ELSE IF m = <<R>> THEN Res(S, <<NOTFOUND>>)
     ELSE LET j == Len(S.data) + 1
              T == Touch([S EXCEPT !.data = Append(@, << >>), !.tree = @ @@ (w.at :> [t |-> "f", i |-> j])], Parent(w.at))
          IN Res(New(T, j), <<OKAY>>)
(* the whole of a file, or the error of opening or reading it *)
Whole(S, p) ==
  LET w == Place(S.tree, p)
  IN IF w.e # 0 THEN [e |-> w.e, v |-> << >>, opened |-> FALSE]
     ELSE IF w.at \notin DOMAIN S.tree THEN [e |-> NOTFOUND, v |-> << >>, opened |-> FALSE]
     ELSE IF S.tree[w.at].t = "d" THEN [e |-> OTHERERR, v |-> << >>, opened |-> TRUE]
     ELSE [e |-> 0, v |-> S.data[S.tree[w.at].i], opened |-> TRUE]
Free(S, p) == LET w == Place(S.tree, p)
              IN w.e = 0 /\ w.at \in DOMAIN S.tree => S.tree[w.at].t # "l" /\ (S.tree[w.at].t = "f" => ~Pending(S, S.tree[w.at].i))
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

Do(S, cwd, o) ==
  LET f == IF o.op \in 1..8 \cup {17, 18} THEN S.fs[o.h + 1] ELSE ClosedFile
      h == o.h + 1
      d == IF o.op \in 20..24 THEN S.ds[h] ELSE ClosedDir
      w == Place(S.tree, o.p)
      there == w.e = 0 /\ w.at \in DOMAIN S.tree
      put(bs) == IF ~f.open THEN Res(S, <<CLOSED>>)
                 ELSE IF bs = << >> THEN Res(S, <<OKAY>>)
                 ELSE IF f.bad THEN Unsaid(S)
                 ELSE IF f.m = <<R>> THEN Res([S EXCEPT !.fs[h].bad = TRUE], <<OTHERERR>>)
                 ELSE Res([S EXCEPT !.fs[h].buf = @ \o bs], <<OKAY>>)
      odd == o.p # << >> /\ (BaseName(o.p) \in {One, Two} \/ (o.op \notin {9, 10, 20, 25} /\ o.p[Len(o.p)] = SLASH) \/ Abs(o.p))
  IN CASE o.op \in {1, 9, 10, 11, 12, 13, 14, 15, 16, 20, 25} /\ odd -> Unsaid(S)
       [] o.op = 1 -> Open(S, h, o.p, o.q)
       [] o.op = 2 -> IF ~f.open THEN Res(S, <<CLOSED>>)
                      ELSE IF o.n = 0 THEN Res(S, <<OKAY>>)
                      (* a stream that failed, or is read with unstored bytes, is in no defined state *)
                      ELSE IF f.bad \/ f.buf # << >> THEN Unsaid(S)
                      ELSE IF f.m # <<R>> THEN Res([S EXCEPT !.fs[h].bad = TRUE], <<OTHERERR>>)
                      ELSE IF f.i = 0 THEN Res([S EXCEPT !.fs[h].bad = TRUE], <<OTHERERR>>)
                      ELSE LET rest == From(S.data[f.i], f.pos)  k == IF Len(rest) < o.n THEN Len(rest) ELSE o.n
                           IN Res([S EXCEPT !.fs[h].pos = @ + k, !.fs[h].eof = @ \/ k < o.n], <<OKAY>> \o SubSeq(rest, 1, k))
       [] o.op = 3 -> put(o.p)
       [] o.op = 18 -> put(FlattenSeq([j \in 1..o.n |-> o.p]))
       [] o.op = 17 -> IF ~f.open \/ f.m = <<R>> THEN Unsaid(S) ELSE put(o.p \o <<61>> \o Digits(o.n))
       [] o.op = 4 -> IF ~f.open THEN Res(S, <<CLOSED>>) ELSE Res(Stored(S, h), <<OKAY>>)
       [] o.op = 5 -> Res(ShutFile(S, h), <<OKAY>>)
       [] o.op = 6 -> Res(S, <<IF ~f.open \/ f.eof THEN 1 ELSE 0>>)
       [] o.op = 7 -> Res(S, <<IF f.bad THEN 1 ELSE 0>>)
       [] o.op = 8 -> Res(S, <<IF f.open THEN 0 ELSE 1>>)
       [] o.op = 9 -> IF w.e # 0 THEN Res(S, <<w.e>>) ELSE IF there THEN Res(S, <<EXISTS>>)
                      ELSE Res(Touch([S EXCEPT !.tree = @ @@ (w.at :> Dir)], Parent(w.at)), <<OKAY>>)
       [] o.op \in {10, 11} ->
            IF w.e # 0 THEN Res(S, <<w.e>>)
            ELSE IF ~there THEN Res(S, <<NOTFOUND>>)
            ELSE IF w.at = << >> THEN Unsaid(S)
            ELSE IF S.tree[w.at].t = "d" THEN (IF Kids(S.tree, w.at) # {} THEN Res(S, <<OTHERERR>>) ELSE Res(Removed(S, {w.at}), <<OKAY>>))
            ELSE IF o.op = 10 THEN Res(S, <<OTHERERR>>) ELSE Res(Removed(S, {w.at}), <<OKAY>>)
       (* a link inside is removed, not what it refers to *)
       [] o.op = 12 -> IF w.e # 0 THEN Res(S, <<w.e>>) ELSE IF ~there THEN Res(S, <<NOTFOUND>>) ELSE IF w.at = << >> THEN Unsaid(S)
                       ELSE Res(Removed(S, Under(S.tree, w.at)), <<OKAY>>)
       (* with-file! leaves its file closed: the 1 at the end *)
       [] o.op \in {13, 14} ->
            LET x == Whole(S, o.p)
            IN IF ~Free(S, o.p) THEN Unsaid(S)
               ELSE IF x.e # 0 THEN Res(S, <<x.e, 1>>)
               ELSE IF o.op = 14 /\ ~Valid(x.v) THEN Res(S, <<BADDATA, 1>>)
               ELSE Res(S, <<OKAY>> \o x.v \o <<1>>)
       (* numbers of 1, 2, 4 and 8 bytes, the least significant first *)
       [] o.op = 15 -> LET r == Open(S, 4, o.p, o.q)
                           bs == SubSeq(o.w, 1, 1) \o SubSeq(o.w, 1, 2) \o SubSeq(o.w, 1, 4) \o o.w
                       IN IF ~Free(S, o.p) \/ r.k = "any" THEN Unsaid(S)
                          ELSE IF r.v # <<OKAY>> THEN Res(r.s, <<r.v[1], 1>>)
                          ELSE IF o.q = <<R>> THEN Res(ShutFile(r.s, 4), <<OTHERERR, 1>>)
                          ELSE Res(ShutFile([r.s EXCEPT !.fs[4].buf = bs], 4), <<OKAY, 1>>)
       [] o.op = 16 ->
            LET x == Whole(S, o.p)
            IN IF ~Free(S, o.p) THEN Unsaid(S)
               ELSE IF x.e # 0 THEN Res(S, <<x.e, 1>>)
               ELSE IF Len(x.v) < 15 THEN Res(S, <<EOFERR, 1>>)
               ELSE Res(S, <<OKAY>> \o SubSeq(x.v, 1, 15) \o <<1>>)
       [] o.op = 20 -> IF w.e # 0 THEN Res([S EXCEPT !.ds[h] = ClosedDir], <<w.e>>)
                       ELSE IF ~there THEN Res([S EXCEPT !.ds[h] = ClosedDir], <<NOTFOUND>>)
                       ELSE IF S.tree[w.at].t = "l" THEN Unsaid(S)
                       ELSE IF S.tree[w.at].t # "d" THEN Res([S EXCEPT !.ds[h] = ClosedDir], <<OTHERERR>>)
                       ELSE Res([S EXCEPT !.ds[h] = [open |-> TRUE, at |-> w.at, left |-> Kids(S.tree, w.at), dirty |-> FALSE]], <<OKAY>>)
       [] o.op = 21 -> IF ~d.open THEN Res(S, <<CLOSED>>) ELSE IF d.dirty THEN Unsaid(S)
                       ELSE [s |-> S, v |-> << >>, k |-> "next"]
       [] o.op = 22 -> Res([S EXCEPT !.ds[h] = ClosedDir], <<OKAY>>)
       [] o.op = 23 -> Res(S, <<IF d.open THEN 0 ELSE 1>>)
       [] o.op = 24 -> IF ~d.open THEN Res(S, << >>) ELSE IF d.dirty THEN Unsaid(S)
                       ELSE [s |-> [S EXCEPT !.ds[h].left = {}], v |-> << >>, k |-> "names"]
       [] o.op = 25 -> IF w.e # 0 THEN Res(S, <<w.e>>) ELSE IF ~there THEN Res(S, <<NOTFOUND>>)
                       ELSE IF S.tree[w.at].t = "l" THEN Unsaid(S)
                       ELSE IF S.tree[w.at].t # "d" THEN Res(S, <<OTHERERR>>)
                       ELSE [s |-> S, v |-> << >>, k |-> "all"]
       [] o.op = 40 -> Res(S, Str(BaseName(o.p)))
       [] o.op = 41 -> [s |-> S, v |-> DirName(o.p), k |-> "trim"]
       [] o.op = 42 -> IF ~HasName(o.p) THEN Unsaid(S)
                       ELSE Res(S, IF ExtDot(o.p) = 0 THEN <<-2>> ELSE <<-3>> \o Str(From(Trim(o.p), ExtDot(o.p))))
       [] o.op = 43 -> IF ~HasName(o.p) THEN Unsaid(S) ELSE Res(S, Str(WithExt(o.p, o.q)))
       [] o.op = 44 -> IF ~HasName(o.p) THEN Unsaid(S) ELSE Res(S, Str(NoExt(o.p) \o Tail0(o.p)))
       [] o.op = 45 -> IF ~HasName(o.p) THEN Unsaid(S) ELSE Res(S, Str(IF ExtDot(o.p) # 0 THEN o.p ELSE WithExt(o.p, o.q)))
       [] o.op = 46 -> Res(S, IF Abs(o.p) THEN <<1, 0>> ELSE <<0, 1>>)
       [] o.op = 47 -> Res(S, (IF Abs(o.p) THEN <<-4>> ELSE << >>) \o FlattenSeq([j \in DOMAIN Names(o.p) |-> Comp(Names(o.p)[j])]))
       [] o.op = 48 -> Res(S, Str(Absolute(Canon(Names(cwd), o.p))))
       [] o.op = 49 -> Res(S, Str(JoinPath(o.p, o.q)))
       [] o.op = 50 -> Res(S, Str(Absolute(Canon(Canon(Names(cwd), o.p), o.q))))
       [] o.op = 51 -> Res(S, Str(JoinPath(JoinPath(o.p, o.q), o.p)))

(* strings, each ended by -1, of a recorded output *)
Strs(xs) == LET p == Split(<<-1>>, xs) IN SubSeq(p, 1, Len(p) - 1)
SetEq(xs, s) == LET p == Strs(xs) IN Range(p) = s /\ Len(p) = Cardinality(s)
(* the state after o with recorded output out, or << >> if the output is not allowed *)
Step(S, cwd, o, out) ==
  LET r == Do(S, cwd, o)  h == o.h + 1
      no == << >>
  IN CASE r.k = "eq" -> IF out = r.v THEN <<r.s>> ELSE no
       [] r.k = "trim" -> IF out # << >> /\ out[Len(out)] = -1 /\ Len(out) > 1 /\ Trim(SubSeq(out, 1, Len(out) - 1)) = Trim(r.v) THEN <<r.s>> ELSE no
       [] r.k = "names" -> IF SetEq(out, S.ds[h].left) THEN <<r.s>> ELSE no
       [] r.k = "all" -> IF out # << >> /\ out[1] = OKAY /\ SetEq(Tail(out), Kids(S.tree, Place(S.tree, o.p).at)) THEN <<r.s>> ELSE no
       [] r.k = "next" -> IF S.ds[h].left = {} THEN (IF out = <<OKAY, -2>> THEN <<S>> ELSE no)
                          ELSE IF Len(out) > 3 /\ SubSeq(out, 1, 2) = <<OKAY, -3>> /\ SubSeq(out, 3, Len(out) - 1) \in S.ds[h].left
                               THEN <<[S EXCEPT !.ds[h].left = @ \ {SubSeq(out, 3, Len(out) - 1)}]>> ELSE no
       [] r.k = "any" -> no
=============================================================================
