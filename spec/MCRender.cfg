CONSTANTS Base = 32768
 MAX <- MMAX
 SUB <- MSUB
 N = 5
 DURS = {0, 1, 2, 3, 999, 1000, 1001, 999999, 1000000, 1001001, 999999999, 1000000000, 1000000001, 1001001001, 1999999999, 2000000000}
SPECIFICATION Spec
INVARIANTS ReadsBack SaysIt Accepts
CHECK_DEADLOCK FALSE
