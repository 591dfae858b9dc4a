CONSTANTS Threads = {1, 2}
 Kind = "ptr"
 Max = 4
INIT Init
NEXT Next
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
