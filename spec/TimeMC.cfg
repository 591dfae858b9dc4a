CONSTANTS Second = 3
 Span = 1
 MaxIntr = 3
INIT Init
NEXT Next
INVARIANTS Arith Whole Progress
CHECK_DEADLOCK FALSE
