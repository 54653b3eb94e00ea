SPECIFICATION Spec
CONSTANTS
  Keep = FALSE
  Anywhere = FALSE
  MaxStops = 3
INVARIANTS FramesIntact NothingLost NoReadAhead InOrderOnce
PROPERTIES EventuallyAll
CHECK_DEADLOCK FALSE
