SPECIFICATION Spec
INVARIANT EmitAll
PROPERTY Stable
CHECK_DEADLOCK FALSE
