SPECIFICATION Spec
INVARIANTS BaseDir Names1 Extension Joining Canonical
CHECK_DEADLOCK FALSE
