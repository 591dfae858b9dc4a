SPECIFICATION Spec
CONSTANTS K = 4 NR = 3 Mode = "remove"
INVARIANTS Lag NoLoss
PROPERTIES Meaning
CHECK_DEADLOCK FALSE
