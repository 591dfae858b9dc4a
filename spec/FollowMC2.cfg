INIT MInit
NEXT MNext
CONSTANTS Defer = TRUE
 MaxLists = 2
INVARIANTS Conforms OneListing Whole
CHECK_DEADLOCK FALSE
