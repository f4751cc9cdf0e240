SPECIFICATION TraceSpec
CONSTANT Mode = "trace"
CHECK_DEADLOCK FALSE
