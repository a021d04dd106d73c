SPECIFICATION Spec
INVARIANT Success
INVARIANT Failure
INVARIANT SilentBefore
INVARIANT EmitAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
