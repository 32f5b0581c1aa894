SPECIFICATION Spec
CONSTANTS Digits = {2, 3, 4, 7, 8} MaxHi = 40 MaxRow = 90
INVARIANT Division Addition Order
CHECK_DEADLOCK FALSE
