CONSTANTS Keys = {1,2,3,4,5,6,7,8,9}
 Cap = 3
 Near = 3
 Vals = {1, 2}
INIT Init
NEXT Next
INVARIANT Refines
CHECK_DEADLOCK FALSE
