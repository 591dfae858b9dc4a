CONSTANTS Lists = {1, 2, 3}
 Elems = {1, 2, 3, 4, 5, 6}
INIT Init
NEXT Next
INVARIANTS Implements Marked
CHECK_DEADLOCK FALSE
