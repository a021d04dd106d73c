SPECIFICATION Spec
INVARIANT Bounded EmitAll
CHECK_DEADLOCK FALSE
