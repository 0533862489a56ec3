CONSTANTS Base = 4
 R = 70
SPECIFICATION Spec
INVARIANT Good
CHECK_DEADLOCK FALSE
