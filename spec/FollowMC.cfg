INIT MInit
NEXT MNext
CONSTANTS Defer = FALSE
 MaxLists = 2
INVARIANTS Conforms OneListing Whole
CHECK_DEADLOCK FALSE
