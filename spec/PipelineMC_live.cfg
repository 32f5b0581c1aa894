SPECIFICATION Live
INVARIANT OutputsLast
PROPERTY Ends
CHECK_DEADLOCK FALSE
