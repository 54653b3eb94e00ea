SPECIFICATION GSpec
CONSTANTS Blocking = TRUE Max = 5 Steps = 16
INVARIANT Report
CHECK_DEADLOCK FALSE
