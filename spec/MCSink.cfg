SPECIFICATION MSpec
CONSTANTS
  Masked = FALSE
  MaxSends = 3
  Depth = 2
INVARIANTS OkMeansWhole RefusedMeansNothing FailedMeansPrefix FailedMeansBroken InOrder SentAreOk OneAtATime
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
