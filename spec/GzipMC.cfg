SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Advances
CHECK_DEADLOCK FALSE
