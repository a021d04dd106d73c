SPECIFICATION SpecA
INVARIANT Within
INVARIANT EmitA
CHECK_DEADLOCK FALSE
