SPECIFICATION Spec
CONSTANT B = 2
INVARIANTS AlgebraLaws PairLaws ScaleLaws
CHECK_DEADLOCK FALSE
