SPECIFICATION Spec
CONSTANTS N = 3
 Mode = "all"
INVARIANTS InOrder OnlyNeeded Never2 Complete
CHECK_DEADLOCK FALSE
