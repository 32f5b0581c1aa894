SPECIFICATION Spec
CONSTANTS Digits = {2, 3} MaxHi = 4 MaxRow = 10
INVARIANT Division Addition Order
CHECK_DEADLOCK FALSE
