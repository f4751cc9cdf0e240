SPECIFICATION Spec
CONSTANTS N = 3
 Workers = 2
INVARIANT Once
PROPERTIES Implements Finishes
CHECK_DEADLOCK FALSE
