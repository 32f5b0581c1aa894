SPECIFICATION Spec
VIEW View
INVARIANT Inv Agrees
CHECK_DEADLOCK FALSE
