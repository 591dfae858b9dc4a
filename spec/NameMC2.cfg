SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Exact Sound
CHECK_DEADLOCK FALSE
