SPECIFICATION LSpec
INVARIANTS MostGeneral MatchLaw
CHECK_DEADLOCK FALSE
