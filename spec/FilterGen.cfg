SPECIFICATION Spec
INVARIANT LawsHold
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
