SPECIFICATION Spec
CONSTANTS
  NI = 2
  BOX = 3
  STEPS = 2
VIEW Hide
INVARIANTS Support NothingLost ConvexExact Extremes RefusedExactly Bounding
CHECK_DEADLOCK FALSE
