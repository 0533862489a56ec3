CONSTANT N = 6
SPECIFICATION ISpec
INVARIANTS Prefix Complete Demand Stops Hints
PROPERTY Ends
CHECK_DEADLOCK FALSE
