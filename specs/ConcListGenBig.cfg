INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
Shapes = {11, 21, 22, 111, 211}
