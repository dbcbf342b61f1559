SPECIFICATION Spec
CONSTANTS NE = 2
 NCo = 3
INVARIANT Inv
