CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS TypeOK Round CanonParts DoubleCompl DeMorgan PartsInject TruncLaws ShapeLaws
CHECK_DEADLOCK FALSE
