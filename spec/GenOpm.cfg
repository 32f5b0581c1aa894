SPECIFICATION Spec
VIEW View
INVARIANT Inv Emit
PROPERTY StepProps
CHECK_DEADLOCK FALSE
