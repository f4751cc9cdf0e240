SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Once Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
