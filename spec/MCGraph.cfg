SPECIFICATION Spec
CONSTANTS
  NMAX = 3
  VALS <- V2
  BOX <- B5
VIEW OnlyG
INVARIANTS Minimal SameSols StepLaws Stable
CHECK_DEADLOCK FALSE
