SPECIFICATION Spec
INVARIANTS Functional OrderFree Report
CHECK_DEADLOCK FALSE
