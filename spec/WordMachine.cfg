SPECIFICATION Spec
VIEW View
INVARIANTS BytesOk Precise
CHECK_DEADLOCK FALSE
