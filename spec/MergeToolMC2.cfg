SPECIFICATION Spec
CONSTANTS N = 2
 Rich = TRUE
INVARIANT MergedAll
CHECK_DEADLOCK FALSE
