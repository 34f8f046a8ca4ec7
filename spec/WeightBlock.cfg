SPECIFICATION Spec
CONSTANTS Bits = {2, 3, 4}  MaxW = 9  Rows = 2
INVARIANT Meets
CHECK_DEADLOCK FALSE
