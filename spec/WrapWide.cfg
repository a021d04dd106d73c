SPECIFICATION WSpec
INVARIANT EmitW
CHECK_DEADLOCK FALSE
