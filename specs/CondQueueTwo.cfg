CONSTANTS Threads = {1, 2}
 MaxOps = 3
 MaxSpurious = 1
INIT Init
NEXT Next
INVARIANTS NoOneLeftAsleep ExactlyOnce OnlyTimedGiveUp
CHECK_DEADLOCK FALSE
