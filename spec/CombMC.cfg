SPECIFICATION Spec
CONSTANTS K = 4 NR = 2 Mode = "remove"
INVARIANTS Lag NoLoss
PROPERTIES Meaning
CHECK_DEADLOCK FALSE
