SPECIFICATION Spec
INVARIANT InOrder
CHECK_DEADLOCK FALSE
