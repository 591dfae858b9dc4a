CONSTANTS Vals = {0, 255, 129}
 Max = 8
INIT Init
NEXT Next
INVARIANTS Same Sliced Hashes
CHECK_DEADLOCK FALSE
