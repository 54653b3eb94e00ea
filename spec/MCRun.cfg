SPECIFICATION MSpec
CONSTANTS
 SmallMax = 5
 MaxFragments <- SmallMax
INVARIANTS RunIsSteps AssemblyOK RTypeOK
CHECK_DEADLOCK FALSE
CONSTRAINT FewFragments
