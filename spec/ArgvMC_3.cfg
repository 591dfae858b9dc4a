CONSTANTS MaxArgs = 4
 Which = 3
INIT Init
NEXT Next
INVARIANTS Untouched Rules Respell Accounted Ended
CHECK_DEADLOCK FALSE
