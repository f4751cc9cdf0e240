SPECIFICATION Spec
INVARIANTS Cover Report
CHECK_DEADLOCK FALSE
