INIT Init
NEXT Next
CONSTANTS
 N = 3
 Len0 = 3
INVARIANTS Alone Complete Apart
CHECK_DEADLOCK FALSE
