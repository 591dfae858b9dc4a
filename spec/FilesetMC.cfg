SPECIFICATION Spec
CONSTANTS NN = 2 ML = 2
INVARIANTS Exact Accounted
PROPERTIES Tracks
CHECK_DEADLOCK FALSE
