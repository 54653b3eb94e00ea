SPECIFICATION MSpec
CONSTANTS
  Depth = 4
  Server = TRUE
  Emit = FALSE
  MaxF = 10
  MaxM = 5
INVARIANTS RTypeOK AssemblyOK DeliveredOK AgreesWithMeaning FailsExactly NothingAfterFailure Conserved
CHECK_DEADLOCK FALSE
