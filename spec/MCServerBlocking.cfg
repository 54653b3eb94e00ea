SPECIFICATION Spec
CONSTANTS Blocking = TRUE Max = 3
INVARIANTS TypeOK OnlyOnce OkIsGood ErrIsReason InOrder NeverStuck
PROPERTIES BlockingServes
CHECK_DEADLOCK FALSE
