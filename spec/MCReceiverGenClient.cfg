SPECIFICATION MSpec
CONSTANTS
  Depth = 3
  Server = FALSE
  Emit = TRUE
  MaxF = 10
  MaxM = 5
INVARIANTS RTypeOK AssemblyOK DeliveredOK AgreesWithMeaning FailsExactly NothingAfterFailure Conserved
CHECK_DEADLOCK FALSE
