SPECIFICATION Spec
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
