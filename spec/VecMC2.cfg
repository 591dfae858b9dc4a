CONSTANTS Hints = {0, 1, 2, 3, 5}
 MaxLen = 9
 Vals = {0, 1}
INIT Init
NEXT Next
INVARIANTS Implements Reserves Strings
CHECK_DEADLOCK FALSE
