CONSTANTS Threads = {1, 2, 3}
 Kind = "thr"
 Max = 4
INIT Init
NEXT Next
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
