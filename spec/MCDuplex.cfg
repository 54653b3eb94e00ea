SPECIFICATION Spec
CONSTANTS MaxA = 2  MaxB = 3
INVARIANTS TypeOK NoLossToB BytesToA LimitInForce DeliveredOK
PROPERTIES HalfClose SentIsRead EndIsSeen
CHECK_DEADLOCK FALSE
