SPECIFICATION Spec
CONSTANTS K = 5 NR = 1 Mode = "join"
INVARIANTS Lag NoLoss
PROPERTIES Meaning
CHECK_DEADLOCK FALSE
