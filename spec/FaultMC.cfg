SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Ends Progress
CHECK_DEADLOCK FALSE
