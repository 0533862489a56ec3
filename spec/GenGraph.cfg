SPECIFICATION Spec
VIEW OnlyG
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
