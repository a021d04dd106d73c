SPECIFICATION Spec
INVARIANT EmitT
CHECK_DEADLOCK FALSE
