CONSTANTS Vals = {0, 1, 129}
 Max = 10
INIT Init
NEXT Next
INVARIANTS Same Sliced Hashes
CHECK_DEADLOCK FALSE
