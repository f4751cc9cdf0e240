SPECIFICATION Spec
INVARIANTS Meant Private Closed Apart Report
CHECK_DEADLOCK FALSE
