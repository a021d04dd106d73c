SPECIFICATION Spec
INVARIANT KeptIsLast
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
