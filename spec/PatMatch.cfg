SPECIFICATION Spec
INVARIANT Partition
CHECK_DEADLOCK FALSE
