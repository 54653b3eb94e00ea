SPECIFICATION Spec
CONSTANTS MaxMsgs = 3
INVARIANTS OnceInOrder EndAfterAll
PROPERTIES Refines AllDelivered EndSeen
CHECK_DEADLOCK FALSE
