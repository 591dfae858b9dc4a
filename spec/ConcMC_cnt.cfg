CONSTANTS Threads = {1, 2}
 Kind = "cnt"
 Max = 4
INIT Init
NEXT Next
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
