SPECIFICATION Spec
CONSTANTS NN = 3 ML = 3
INVARIANTS Exact Accounted
PROPERTIES Tracks
CHECK_DEADLOCK FALSE
