CONSTANTS Base = 2
 R = 40
SPECIFICATION Spec
INVARIANT Good
CHECK_DEADLOCK FALSE
