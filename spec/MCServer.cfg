SPECIFICATION Spec
CONSTANTS Blocking = FALSE Max = 3
INVARIANTS TypeOK OnlyOnce OkIsGood ErrIsReason InOrder NeverStuck
PROPERTIES AsyncServes
CHECK_DEADLOCK FALSE
