SPECIFICATION Spec
CONSTANTS Size = 9
INVARIANTS PositionMasked Involution ColumnsAgree
PROPERTIES AllWritten
CHECK_DEADLOCK FALSE
