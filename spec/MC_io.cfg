SPECIFICATION Spec
CONSTANTS
  Calls = 2
  Faults = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
