SPECIFICATION Spec
CONSTANTS
  Calls = 3
  Faults = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
