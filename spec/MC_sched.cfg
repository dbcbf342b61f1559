SPECIFICATION Spec
CONSTANTS N = 3
 Prios = {0, 50, 99}
 Calm = FALSE
INVARIANT Inv
PROPERTY Highest
