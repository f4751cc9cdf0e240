------------------------------- MODULE Reader -------------------------------
(* Reading: from characters to tokens, from tokens to trees, each with the range of text it denotes. *)
(*                                                                                                   *)
(* A text is a sequence of Unicode scalar values.  Positions are numbers of characters already read. *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

VARIABLES i, done
Batch == TLCEval(ndJsonDeserialize(IOEnv.BATCH))

------------------------------------------------------------------------------
(* characters *)
Spaces == {32, 9, 13, 10}
Digit == 48..57
(* ! $ % & * + - . / 0-9 : < = > ? A-Z ^ _ a-z | *)
IdChars == {33, 36, 37, 38, 42, 43, 45, 46, 47, 58, 60, 61, 62, 63, 94, 95, 124} \cup Digit \cup (65..90) \cup (97..122)
(* the character an escape stands for *)
Escape == (116 :> 9) @@ (114 :> 13) @@ (110 :> 10) @@ (34 :> 34) @@ (92 :> 92)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [k \in DOMAIN s |-> Lower(s[k])]

At(t, p) == IF p \in 1..Len(t) THEN t[p] ELSE -1

RECURSIVE Run(_, _, _)
(* the first position from p on whose character is not in S *)
Run(t, p, S) == IF p <= Len(t) /\ t[p] \in S THEN Run(t, p + 1, S) ELSE p
RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF p > Len(t) THEN p ELSE IF t[p] = 10 THEN p + 1 ELSE LineEnd(t, p + 1)

(* ---- numbers: [+-] digits within 64 bits, else the decimal notations of floating point, else a symbol *)
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ Head(ds) = 48 THEN Strip(Tail(ds)) ELSE ds
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLe(Tail(a), Tail(b))
DecLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
MaxU == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>    \* 18446744073709551615
MaxNeg == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>      \* 9223372036854775808
AllDigits(s) == s # <<>> /\ \A k \in DOMAIN s : s[k] \in Digit
Unsign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Neg(s) == s # <<>> /\ s[1] = 45
Words == {<<105,110,102>>, <<105,110,102,105,110,105,116,121>>, <<110,97,110>>}   \* inf infinity nan
IsUnsigned(s) == AllDigits(Unsign(s)) /\ ~Neg(s) /\ DecLe(Strip(Unsign(s)), MaxU)
IsSigned(s) == AllDigits(Unsign(s)) /\ Neg(s) /\ DecLe(Strip(Unsign(s)), MaxNeg)
IsExp(s) == s = <<>> \/ (s[1] \in {69, 101} /\ AllDigits(Unsign(Tail(s))))
IsDecimal(s) ==
  LET p == Run(s, 1, Digit) IN                       \* integer part 1..p-1
  LET q == IF At(s, p) = 46 THEN Run(s, p + 1, Digit) ELSE p IN
  /\ (p > 1 \/ q > p + 1)
  /\ IsExp(SubSeq(s, q, Len(s)))
IsFloat(s) == LowerAll(Unsign(s)) \in Words \/ IsDecimal(Unsign(s))

Word(s) ==
  IF IsUnsigned(s) THEN [k |-> "unsigned", v |-> Strip(Unsign(s))]
  ELSE IF IsSigned(s) THEN [k |-> "signed", v |-> Strip(Unsign(s))]
  ELSE IF IsFloat(s) THEN [k |-> "float", v |-> s]
  ELSE IF s = <<46>> THEN [k |-> ".", v |-> <<>>]
  ELSE IF s = <<63>> THEN [k |-> "?", v |-> <<>>]
  ELSE IF s = <<33>> THEN [k |-> "!", v |-> <<>>]
  ELSE [k |-> "symbol", v |-> s]

(* ---- strings: from p, behind the quote; e is the end, ok whether the closing quote was found *)
RECURSIVE Str(_, _, _)
Str(t, p, acc) ==
  IF p > Len(t) THEN [ok |-> FALSE, e |-> p, v |-> <<>>]
  ELSE IF t[p] = 34 THEN [ok |-> TRUE, e |-> p + 1, v |-> acc]
  ELSE IF t[p] # 92 THEN Str(t, p + 1, Append(acc, t[p]))
  ELSE IF At(t, p + 1) \in DOMAIN Escape THEN Str(t, p + 2, Append(acc, Escape[t[p + 1]]))
  ELSE [ok |-> FALSE, e |-> p + 1, v |-> <<>>]

Punct == (40 :> "(") @@ (41 :> ")") @@ (91 :> "[") @@ (93 :> "]") @@ (123 :> "{") @@ (125 :> "}")
      @@ (39 :> "quote") @@ (96 :> "quasiquote") @@ (92 :> "capture") @@ (126 :> "load") @@ (64 :> "@")

(* the token at position p (1-based): [k, v, e], e the position behind it *)
Token(t, p) ==
  LET c == t[p] IN
  IF c \in Spaces THEN [k |-> "space", v |-> <<>>, e |-> Run(t, p, Spaces)]
  ELSE IF c = 59 THEN [k |-> "space", v |-> <<>>, e |-> LineEnd(t, p)]
  ELSE IF c \in IdChars THEN
    LET e == Run(t, p, IdChars) w == Word(SubSeq(t, p, e - 1)) IN [k |-> w.k, v |-> w.v, e |-> e]
  ELSE IF c = 34 THEN
    LET s == Str(t, p + 1, <<>>) IN [k |-> IF s.ok THEN "string" ELSE "error", v |-> s.v, e |-> s.e]
  ELSE IF c = 35 /\ At(t, p + 1) = 92 THEN
    IF p + 2 > Len(t) THEN [k |-> "error", v |-> <<>>, e |-> p + 2]
    ELSE IF t[p + 2] # 92 THEN [k |-> "char", v |-> <<t[p + 2]>>, e |-> p + 3]
    ELSE IF At(t, p + 3) \in DOMAIN Escape THEN [k |-> "char", v |-> <<Escape[t[p + 3]]>>, e |-> p + 4]
    ELSE [k |-> "error", v |-> <<>>, e |-> p + 3]
  ELSE IF c = 35 /\ At(t, p + 1) = 116 THEN [k |-> "true", v |-> <<>>, e |-> p + 2]
  ELSE IF c = 35 /\ At(t, p + 1) = 102 THEN [k |-> "false", v |-> <<>>, e |-> p + 2]
  ELSE IF c = 44 /\ At(t, p + 1) = 64 THEN [k |-> "unquote-splicing", v |-> <<>>, e |-> p + 2]
  ELSE IF c = 44 THEN [k |-> "unquote", v |-> <<>>, e |-> p + 1]
  ELSE IF c \in DOMAIN Punct THEN [k |-> Punct[c], v |-> <<>>, e |-> p + 1]
  ELSE [k |-> "error", v |-> <<>>, e |-> p + 1]

(* tokens with a the number of characters before them and b up to their end; spaces and comments vanish *)
RECURSIVE Tokens(_, _)
Tokens(t, p) ==
  IF p > Len(t) THEN <<>>
  ELSE LET x == TLCEval(Token(t, p)) IN
       (IF x.k = "space" THEN <<>> ELSE << [k |-> x.k, v |-> x.v, a |-> p - 1, b |-> x.e - 1] >>) \o Tokens(t, x.e)

------------------------------------------------------------------------------
(* trees: [k, a, b, ...] with a..b the text they were read from *)
Quotes == {"quote", "quasiquote", "unquote", "unquote-splicing", "capture", "load"}
Closing == [x \in {"(", "["} |-> IF x = "(" THEN ")" ELSE "]"]
Stops == {".", "@", "?", "!", ")", "]", "}"}
Kind(T, p) == IF p <= Len(T) THEN T[p].k ELSE "eof"
StartAt(T, p) == IF p <= Len(T) THEN T[p].a ELSE IF p = 1 THEN 0 ELSE T[Len(T)].b
EndBefore(T, p) == IF p = 1 THEN 0 ELSE T[p - 1].b

Name(w, a, b) == [k |-> "name", s |-> w, a |-> a, b |-> b]
List(l, a, b) == [k |-> "list", l |-> l, a |-> a, b |-> b]
(* the shape of (hs . t) *)
Dotted(hs, t, a, b) ==
  IF hs = <<>> THEN [t EXCEPT !.a = a, !.b = b]
  ELSE IF t.k = "list" THEN List(hs \o t.l, a, b)
  ELSE IF t.k = "dot" THEN [k |-> "dot", l |-> hs \o t.l, t |-> t.t, a |-> a, b |-> b]
  ELSE [k |-> "dot", l |-> hs, t |-> t, a |-> a, b |-> b]

(* outcomes: p the next token, x the tree(s), ok, es the places where something else was expected *)
Ok(p, x, es) == [ok |-> TRUE, p |-> p, x |-> x, es |-> es, f |-> 0]
Bad(p, es) == [ok |-> FALSE, p |-> p, x |-> <<>>, es |-> es, f |-> p]     \* token f is unexpected

RECURSIVE Sexp(_, _), Seqq(_, _, _, _), Body(_, _), Suffixes(_, _, _, _, _), Skip(_, _)

(* resume at something an expression can be followed by *)
Skip(T, p) == IF Kind(T, p) \in {"error", "{", "?", "!"} THEN Skip(T, p + 1) ELSE p

(* as many expressions as there are; a malformed one is noted and left out *)
Seqq(T, p, acc, es) ==
  IF Kind(T, p) \in Stops \cup {"eof"} THEN Ok(p, acc, es)
  ELSE LET r == TLCEval(Sexp(T, p)) IN
       IF r.ok THEN Seqq(T, r.p, Append(acc, r.x), es \o r.es)
       ELSE Seqq(T, Skip(T, r.p), acc, es \o r.es \o <<r.f>>)

(* what stands between parentheses *)
Body(T, p) ==
  LET s == TLCEval(Seqq(T, p, <<>>, <<>>)) IN
  IF Kind(T, s.p) = "@" THEN
    LET r == TLCEval(Body(T, s.p + 1)) IN
    IF ~r.ok THEN [r EXCEPT !.es = s.es \o r.es]
    ELSE Ok(r.p, List(Append(s.x, [r.x EXCEPT !.a = StartAt(T, s.p + 1), !.b = EndBefore(T, r.p)]), 0, 0), s.es \o r.es)
  ELSE IF Kind(T, s.p) = "." THEN
    LET r == TLCEval(Sexp(T, s.p + 1)) IN
    IF ~r.ok THEN [r EXCEPT !.es = s.es \o r.es] ELSE Ok(r.p, Dotted(s.x, r.x, 0, 0), s.es \o r.es)
  ELSE Ok(s.p, List(s.x, 0, 0), s.es)

Primary(T, p) ==
  LET t == T[p] k == Kind(T, p) IN
  IF k \in {"unsigned", "signed", "float", "symbol", "string", "char"} THEN Ok(p + 1, [k |-> k, v |-> t.v, a |-> t.a, b |-> t.b], <<>>)
  ELSE IF k \in {"true", "false"} THEN Ok(p + 1, [k |-> "bool", v |-> k = "true", a |-> t.a, b |-> t.b], <<>>)
  ELSE IF k \in Quotes THEN
    LET r == TLCEval(Sexp(T, p + 1)) IN
    IF r.ok THEN Ok(r.p, List(<<Name(k, t.a, t.b), r.x>>, t.a, EndBefore(T, r.p)), r.es) ELSE r
  ELSE IF k \in DOMAIN Closing THEN
    LET r == TLCEval(Body(T, p + 1)) IN
    IF ~r.ok THEN r
    ELSE IF Kind(T, r.p) # Closing[k] THEN Bad(r.p, r.es)
    ELSE Ok(r.p + 1, [r.x EXCEPT !.a = t.a, !.b = T[r.p].b], r.es)
  ELSE Bad(p, <<>>)

Suffixes(T, p, x, es, a) ==
  LET k == Kind(T, p) IN
  IF k \in {"?", "!"} THEN
    LET w == IF k = "?" THEN "try?" ELSE "try!" IN
    Suffixes(T, p + 1, List(<<Name(w, a, T[p].b), x>>, a, T[p].b), es, a)
  ELSE IF k = "{" THEN
    LET s == TLCEval(Seqq(T, p + 1, <<>>, <<>>)) IN
    IF Kind(T, s.p) # "}" THEN Bad(s.p, es \o s.es)
    ELSE Suffixes(T, s.p + 1, List(<<Name("annotate", a, T[s.p].b), x>> \o s.x, a, T[s.p].b), es \o s.es, a)
  ELSE Ok(p, x, es)

Sexp(T, p) ==
  LET r == TLCEval(Primary(T, p)) IN
  IF r.ok THEN Suffixes(T, r.p, r.x, r.es, T[p].a) ELSE r

(* the whole text *)
Text(t) ==
  LET T == TLCEval(Tokens(t, 1)) s == TLCEval(Seqq(T, 1, <<>>, <<>>)) IN
  LET bad == s.es \o (IF s.p <= Len(T) THEN <<s.p>> ELSE <<>>)
      where == [k \in DOMAIN bad |-> <<StartAt(T, bad[k]), IF bad[k] <= Len(T) THEN T[bad[k]].b ELSE StartAt(T, bad[k])>>] IN
  [toks |-> [k \in DOMAIN T |-> <<T[k].a, T[k].b>>],
   ok |-> bad = <<>>, x |-> IF bad = <<>> THEN s.x ELSE <<>>, errs |-> where]

------------------------------------------------------------------------------
(* lines, columns and offsets, in bytes of UTF-8 *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Places(_, _, _)
Places(t, p, q) ==
  IF p > Len(t) THEN <<>>
  ELSE LET n == IF t[p] = 10 THEN <<q[1] + 1, q[2] + 1, 0>> ELSE <<q[1] + Width(t[p]), q[2], q[3] + Width(t[p])>>
       IN <<n>> \o Places(t, p + 1, n)

Init == i \in 1..Len(Batch) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>

Out == TLCEval(Text(Batch[i].t))

(* laws of the definition *)
RECURSIVE Nested(_)
(* parts lie within the whole, in order and without overlap *)
Nested(x) ==
  /\ x.a < x.b
  /\ (x.k \in {"list", "dot"}) =>
       LET l == IF x.k = "list" THEN x.l ELSE Append(x.l, x.t) IN
       \A k \in DOMAIN l : Nested(l[k]) \/ (l[k].k = "list" /\ l[k].l = <<>>)
Cover == done \/
  LET o == Out IN
  /\ \A k \in DOMAIN o.toks : o.toks[k][1] < o.toks[k][2] /\ (k > 1 => o.toks[k - 1][2] <= o.toks[k][1])
  /\ \A k \in DOMAIN o.x : Nested(o.x[k]) /\ (k > 1 => o.x[k - 1].b <= o.x[k].a)
Report == done \/ LET o == Out IN
  PrintT(ToJson([id |-> Batch[i].id, ok |-> o.ok, x |-> o.x, errs |-> o.errs, at |-> <<<<0, 0, 0>>>> \o Places(Batch[i].t, 1, <<0, 0, 0>>)]))
==============================================================================
