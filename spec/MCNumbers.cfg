CONSTANTS Base = 4
 M = 9
 MAX <- MMax
 SUB <- MSub4
SPECIFICATION Spec
INVARIANTS Closed Laws
CHECK_DEADLOCK FALSE
