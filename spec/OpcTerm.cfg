SPECIFICATION Spec
INVARIANT Sound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
