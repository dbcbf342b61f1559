SPECIFICATION Spec
CONSTANTS Base = 2
 Max = 1
 NCo = 4
INVARIANT Inv
PROPERTIES Begins AllBegin
