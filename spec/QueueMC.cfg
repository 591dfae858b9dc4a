SPECIFICATION Spec
CONSTANTS N = 4 Width = 2 Vals = 5 Ordered = FALSE Rounds = 10
INVARIANTS PAgrees CAgrees Bounded RingOk
CHECK_DEADLOCK FALSE
