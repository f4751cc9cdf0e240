CONSTANT Wide = FALSE
SPECIFICATION Spec
INVARIANT Principal
CHECK_DEADLOCK FALSE
