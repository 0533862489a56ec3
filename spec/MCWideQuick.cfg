CONSTANTS Base = 4
 R = 24
SPECIFICATION Spec
INVARIANT Good
CHECK_DEADLOCK FALSE
