SPECIFICATION Spec
VIEW View
INVARIANT Inv Agrees BpmIsLargest Emit
CHECK_DEADLOCK FALSE
