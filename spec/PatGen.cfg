SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Scen = "Mix"
INVARIANT Emit
INVARIANT Complete
CHECK_DEADLOCK FALSE
