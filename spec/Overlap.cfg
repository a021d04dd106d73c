SPECIFICATION SpecO
INVARIANT OneMoves
INVARIANT Once
INVARIANT Overlapping
INVARIANT EmitO
CHECK_DEADLOCK FALSE
