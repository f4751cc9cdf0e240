SPECIFICATION Spec
INVARIANTS Settled Separate Report
CHECK_DEADLOCK FALSE
