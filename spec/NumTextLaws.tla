---------------------------- MODULE NumTextLaws -----------------------------
(* NumText over every byte, both signednesses and every radix. *)
EXTENDS Word
VARIABLES b, radix
N == INSTANCE NumText WITH r <- 1, pc <- 0, ids <- {}, ok <- TRUE
Init == b \in 0..255 /\ radix = 2
Next == radix < 36 /\ radix' = radix + 1 /\ b' = b
Spec == Init /\ [][Next]_<<b, radix>>
Laws == N!LawsOf(<<b>>, TRUE, radix) /\ N!LawsOf(<<b>>, FALSE, radix)
=============================================================================
