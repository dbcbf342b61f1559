SPECIFICATION Spec
CONSTANTS
  NC = 2
  Calls = 2
  Faults = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
