------------------------------ MODULE FilesLaws ------------------------------
(* Laws of the paths of Files.tla, for every short path.                      *)
EXTENDS Files
Alphabet == {SLASH, DOT, 97}
Paths == UNION {[1..n -> Alphabet] : n \in 0..5}
VARIABLES p, q
Init == p \in Paths /\ q = << >>
Next == q = << >> /\ p' = p /\ q' \in UNION {[1..n -> Alphabet] : n \in 1..3}
Spec == Init /\ [][Next]_<<p, q>>
Cwd == <<<<98>>, <<99>>>>
C(x) == Canon(Cwd, x)
BaseDir == p # << >> /\ HasName(p) /\ BaseName(p) # <<SLASH>> => C(JoinPath(DirName(p), BaseName(p))) = C(p)
Names1 == LET n == BaseName(p) IN n = <<SLASH>> \/ SLASH \notin Range(n)
Extension == HasName(p) =>
  /\ ExtDot(p) # 0 => LET e == From(Trim(p), ExtDot(p)) IN WithExt(p, e) = p
  /\ WithExt(WithExt(p, <<120>>), <<121>>) = WithExt(p, <<121>>) \/ BaseName(p) \in {<< >>, <<SLASH>>}
  /\ HasName(NoExt(p)) /\ NoExt(p) # << >> => DirName(NoExt(p)) = DirName(p)
Joining == /\ Abs(q) => JoinPath(p, q) = q
           /\ C(JoinPath(p, q)) = Canon(C(p), q)
           /\ Abs(JoinPath(p, q)) = (Abs(p) \/ Abs(q))
Canonical == LET c == Absolute(C(p)) IN C(c) = C(p) /\ Abs(c) /\ Two \notin Range(Names(c)) /\ One \notin Range(Names(c))
=============================================================================
