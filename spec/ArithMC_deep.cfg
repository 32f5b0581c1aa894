SPECIFICATION Spec
CONSTANTS Digits = {2, 3, 4, 5, 7, 8, 10, 16} MaxHi = 80 MaxRow = 300
INVARIANT Division Addition Order
CHECK_DEADLOCK FALSE
