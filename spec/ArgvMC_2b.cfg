CONSTANTS MaxArgs = 5
 Which = 2
INIT Init
NEXT Next
INVARIANTS Untouched Rules Respell Accounted Ended
CHECK_DEADLOCK FALSE
