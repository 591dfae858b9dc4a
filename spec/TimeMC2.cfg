CONSTANTS Second = 5
 Span = 2
 MaxIntr = 5
INIT Init
NEXT Next
INVARIANTS Arith Whole Progress
CHECK_DEADLOCK FALSE
