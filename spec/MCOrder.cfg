CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS OrderLaws
CHECK_DEADLOCK FALSE
