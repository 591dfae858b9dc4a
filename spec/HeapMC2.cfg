CONSTANTS Keys = {1, 2, 3, 4}
 MaxSize = 8
INIT Init
NEXT Next
INVARIANTS Ordered Same Least
CHECK_DEADLOCK FALSE
