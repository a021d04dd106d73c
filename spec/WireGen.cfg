SPECIFICATION Spec
INVARIANT Inverse
INVARIANT OnlyWhole
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
