SPECIFICATION Spec
CONSTANTS
  NMAX = 3
  VALS <- V1
  BOX <- B5
INVARIANTS Minimal SameSols StepLaws Stable
CHECK_DEADLOCK FALSE
