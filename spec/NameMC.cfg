SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANTS Exact Sound
CHECK_DEADLOCK FALSE
