SPECIFICATION GSpec
CONSTANTS Blocking = FALSE Max = 5 Steps = 16
INVARIANT Report
CHECK_DEADLOCK FALSE
