SPECIFICATION Spec
CONSTANTS HeadUnits = 3 WsUnits = 2
INVARIANTS ServerConserves ClientConserves NothingUnasked ConnectedServer OneAnswer ConnectedClient Reported ServerOutcome ClientOutcome
PROPERTIES Decides ClientDecides
CHECK_DEADLOCK FALSE
