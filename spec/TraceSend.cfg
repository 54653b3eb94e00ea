SPECIFICATION TraceSpec
INVARIANTS BytesAccounted KeysMatchRole
CHECK_DEADLOCK FALSE
