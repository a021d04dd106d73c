SPECIFICATION Spec
INVARIANT Once
INVARIANT InOrder
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
