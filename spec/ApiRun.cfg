SPECIFICATION Spec
INVARIANT Exactly
INVARIANT Complete
INVARIANT DrySendsNothing
INVARIANT Local
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
