SPECIFICATION Spec
CONSTANTS MaxOps = 2 Emit = FALSE
INVARIANTS ByHistory CustomByHistory RequestRight RequestLeavesNothingOut RequestAddsNothing ReadBack
CHECK_DEADLOCK FALSE
