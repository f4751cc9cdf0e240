SPECIFICATION Spec
INVARIANTS Filters Lazy Shared Pairs Counts
CHECK_DEADLOCK FALSE
