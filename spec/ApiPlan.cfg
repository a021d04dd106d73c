SPECIFICATION Spec
INVARIANT Healthy
INVARIANT NoTwins
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
