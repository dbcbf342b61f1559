SPECIFICATION Spec
CONSTANTS
  W = {"w1", "w2", "w3"}
  R = {"r1", "r2"}
  Rounds = 2
INVARIANT Inv
PROPERTIES Ordered NotBefore Served
CHECK_DEADLOCK TRUE
