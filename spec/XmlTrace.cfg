SPECIFICATION Spec
INVARIANT Judge1
CHECK_DEADLOCK FALSE
