SPECIFICATION Spec
CONSTANTS
  NMAX = 3
  VALS <- V2
  BOX <- B5
VIEW OnlyG
INVARIANTS PairLaws
CHECK_DEADLOCK FALSE
