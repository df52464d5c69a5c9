CONSTANTS Threads = {1, 2, 3, 4, 5}
 MaxOps = 1
 MaxSpurious = 1
INIT Init
NEXT Next
INVARIANTS NoOneLeftAsleep ExactlyOnce OnlyTimedGiveUp
CHECK_DEADLOCK FALSE
