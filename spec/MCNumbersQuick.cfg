CONSTANTS Base = 4
 M = 6
 MAX <- MMax
 SUB <- MSub4
SPECIFICATION Spec
INVARIANTS Closed Laws
CHECK_DEADLOCK FALSE
