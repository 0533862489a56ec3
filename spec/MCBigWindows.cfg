CONSTANTS Base = 16
 Big = 4
 MAX <- MCMAX
 SUB <- MCSUB
SPECIFICATION Spec
INVARIANTS AloneLaws PairLaws SumLaws ScaleLaws BuildLaws GrowLaws
CHECK_DEADLOCK FALSE
