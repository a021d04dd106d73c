SPECIFICATION Spec
INVARIANT AllExpressible
INVARIANT ReadBack
INVARIANT EmitDevs
CHECK_DEADLOCK FALSE
