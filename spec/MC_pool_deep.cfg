SPECIFICATION Spec
CONSTANTS Base = 3
 Max = 2
 NCo = 5
INVARIANT Inv
PROPERTIES Begins AllBegin
