SPECIFICATION TSpec
INVARIANT TraceOK
CHECK_DEADLOCK FALSE
