SPECIFICATION Spec
INVARIANT BasesValid
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
