SPECIFICATION Spec
INVARIANT Sound
INVARIANT Complete
INVARIANT Bounded
INVARIANT Irrelevant
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
