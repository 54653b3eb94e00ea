SPECIFICATION TraceSpec
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
