CONSTANT N = 7
SPECIFICATION ISpec
INVARIANTS Prefix Complete Demand Stops Hints
PROPERTY Ends
CHECK_DEADLOCK FALSE
