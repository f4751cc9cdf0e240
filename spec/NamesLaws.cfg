CONSTANTS L = 2 R = 2
SPECIFICATION Spec
INVARIANTS Selection There Compose Faithful Nonempty Plain
CHECK_DEADLOCK FALSE
