CONSTANTS Base = 32768
 MAX <- TrMAX
 SUB <- TrSUB
SPECIFICATION TSpec
INVARIANT TraceOK
CHECK_DEADLOCK FALSE
