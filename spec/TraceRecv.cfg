SPECIFICATION TraceSpec
INVARIANTS RTypeOK AssemblyOK DeliveredOK
CHECK_DEADLOCK FALSE
