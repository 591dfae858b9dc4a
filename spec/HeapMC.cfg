CONSTANTS Keys = {1, 2, 3}
 MaxSize = 6
INIT Init
NEXT Next
INVARIANTS Ordered Same Least
CHECK_DEADLOCK FALSE
