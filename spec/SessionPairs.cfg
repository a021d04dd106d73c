SPECIFICATION SpecP
INVARIANT KeptIsLast
INVARIANT EmitP
CHECK_DEADLOCK FALSE
