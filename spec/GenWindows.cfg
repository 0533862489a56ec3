CONSTANT N <- GenN
SPECIFICATION GSpec
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
