SPECIFICATION Spec
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
