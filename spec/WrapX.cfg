SPECIFICATION Spec
INVARIANT EmitX
CHECK_DEADLOCK FALSE
