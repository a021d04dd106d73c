SPECIFICATION Spec
INVARIANT PrefixRule
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
