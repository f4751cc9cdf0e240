SPECIFICATION Spec
INVARIANT Safe
PROPERTY Ended
CHECK_DEADLOCK FALSE
CONSTANT Depth = 2
CONSTANT Slice = 0
CONSTANT Slices = 1
