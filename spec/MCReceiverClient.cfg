SPECIFICATION MSpec
CONSTANTS
  Depth = 4
  Server = FALSE
  Emit = FALSE
  MaxF = 10
  MaxM = 5
INVARIANTS RTypeOK AssemblyOK DeliveredOK AgreesWithMeaning FailsExactly NothingAfterFailure Conserved
CHECK_DEADLOCK FALSE
