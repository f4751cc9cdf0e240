SPECIFICATION Spec
INVARIANT LawsAtEnd
CHECK_DEADLOCK FALSE
