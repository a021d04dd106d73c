SPECIFICATION Spec
INVARIANT Monotone
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
