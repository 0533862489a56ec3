SPECIFICATION Spec
CONSTANTS
  NI = 3
  BOX = 2
  STEPS = 1
VIEW Hide
INVARIANTS Support NothingLost ConvexExact Extremes RefusedExactly Bounding
CHECK_DEADLOCK FALSE
