SPECIFICATION Spec
INVARIANTS Solved Finite Kinded InScope Report
CHECK_DEADLOCK FALSE
