SPECIFICATION Spec
VIEW View
INVARIANT RefsValid
PROPERTY OutputGrows
CHECK_DEADLOCK FALSE
