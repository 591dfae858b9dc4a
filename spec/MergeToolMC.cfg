SPECIFICATION Spec
CONSTANTS N = 3
 Rich = FALSE
INVARIANT MergedAll
CHECK_DEADLOCK FALSE
