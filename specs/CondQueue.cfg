CONSTANTS Threads = {1, 2, 3}
 MaxOps = 2
 MaxSpurious = 1
INIT Init
NEXT Next
INVARIANTS NoOneLeftAsleep ExactlyOnce OnlyTimedGiveUp
CHECK_DEADLOCK FALSE
