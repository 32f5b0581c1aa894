SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Ends Advance
CHECK_DEADLOCK FALSE
