SPECIFICATION Spec
PROPERTY Terminates
INVARIANT Exactly
CHECK_DEADLOCK FALSE
