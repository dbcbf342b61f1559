SPECIFICATION Spec
CONSTANTS
  Slack <- NoSlack
  MaxStages = 2
  N = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
