SPECIFICATION Spec
CONSTANTS
  NC = 2
  Calls = 3
  Faults = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
