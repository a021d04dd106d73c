SPECIFICATION Spec
CONSTANT Scenarios <- Scens
INVARIANT Relocated
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
