CONSTANTS Base = 32768
 MAX <- GMAX
 SUB <- GSUB
SPECIFICATION Spec
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
