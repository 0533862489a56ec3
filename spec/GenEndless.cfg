SPECIFICATION GSpec
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
