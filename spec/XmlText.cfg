SPECIFICATION SpecX
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
