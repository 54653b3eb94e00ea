SPECIFICATION GSpec
CONSTANTS
  Masked = FALSE
  MaxSends = 2
  Depth = 1
INVARIANTS OkMeansWhole RefusedMeansNothing FailedMeansPrefix FailedMeansBroken InOrder Report
CHECK_DEADLOCK FALSE
