SPECIFICATION Spec
CONSTANTS MaxMsgs = 2
INVARIANTS OnceInOrder EndAfterAll
PROPERTIES Refines AllDelivered EndSeen
CHECK_DEADLOCK FALSE
