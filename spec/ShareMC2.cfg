INIT Init
NEXT Next
CONSTANTS
 N = 3
 Len0 = 4
INVARIANTS Alone Complete Apart
CHECK_DEADLOCK FALSE
