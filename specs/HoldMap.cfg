CONSTANTS Keys = {1,2,3,4,5,6,7}
 Cap = 3
 Near = 2
 Vals = {1, 2}
INIT Init
NEXT Next
INVARIANT Refines
CHECK_DEADLOCK FALSE
