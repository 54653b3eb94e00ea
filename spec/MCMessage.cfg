SPECIFICATION Spec
CONSTANTS Steps = 5
INVARIANTS SameValue StaysWellFormed
CHECK_DEADLOCK FALSE
