SPECIFICATION Spec
INVARIANT Least
CHECK_DEADLOCK FALSE
