SPECIFICATION MSpec
CONSTANTS
  Masked = TRUE
  MaxSends = 3
  Depth = 1
INVARIANTS OkMeansWhole RefusedMeansNothing FailedMeansPrefix FailedMeansBroken InOrder SentAreOk OneAtATime
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
