SPECIFICATION Spec
INVARIANTS Identity Settled Separate Wrap Report
CHECK_DEADLOCK FALSE
