SPECIFICATION Spec
VIEW Hide
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
