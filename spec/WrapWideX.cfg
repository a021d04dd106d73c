SPECIFICATION WSpec
INVARIANT EmitX
CHECK_DEADLOCK FALSE
