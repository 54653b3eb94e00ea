SPECIFICATION MSpec
CONSTANTS
 SmallMax = 7
 MaxFragments <- SmallMax
INVARIANTS RunIsSteps AssemblyOK RTypeOK
CHECK_DEADLOCK FALSE
CONSTRAINT FewFragments
