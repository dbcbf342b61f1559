SPECIFICATION FairSpec
CONSTANTS N = 4
 Prios = {0, 99}
 Calm = TRUE
INVARIANT Inv
PROPERTY Highest Everyone
