SPECIFICATION Spec
CONSTANTS N = 4
 Rich = FALSE
INVARIANT MergedAll
CHECK_DEADLOCK FALSE
