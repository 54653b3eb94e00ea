SPECIFICATION TraceSpec
INVARIANTS EndIsLast
CHECK_DEADLOCK FALSE
