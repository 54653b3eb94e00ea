SPECIFICATION Spec
CONSTANTS Blocking = FALSE Max = 4
INVARIANTS TypeOK OnlyOnce OkIsGood ErrIsReason InOrder NeverStuck
PROPERTIES AsyncServes
CHECK_DEADLOCK FALSE
