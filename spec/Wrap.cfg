SPECIFICATION Spec
INVARIANT EmitW
CHECK_DEADLOCK FALSE
