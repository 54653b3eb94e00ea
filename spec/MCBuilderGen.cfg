SPECIFICATION Spec
CONSTANTS MaxOps = 3 Emit = TRUE
INVARIANTS ByHistory CustomByHistory
CHECK_DEADLOCK FALSE
