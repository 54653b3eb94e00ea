SPECIFICATION Spec
CONSTANTS
  Keep = TRUE
  Anywhere = TRUE
  MaxStops = 3
INVARIANTS FramesIntact NothingLost NoReadAhead InOrderOnce
PROPERTIES EventuallyAll
CHECK_DEADLOCK FALSE
