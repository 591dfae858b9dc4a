CONSTANTS Hints = {0, 1, 2, 3}
 MaxLen = 6
 Vals = {0, 1}
INIT Init
NEXT Next
INVARIANTS Implements Reserves Strings
CHECK_DEADLOCK FALSE
