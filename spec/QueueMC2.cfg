SPECIFICATION Spec
CONSTANTS N = 8 Width = 3 Vals = 9 Ordered = FALSE Rounds = 20
INVARIANTS PAgrees CAgrees Bounded RingOk
CHECK_DEADLOCK FALSE
