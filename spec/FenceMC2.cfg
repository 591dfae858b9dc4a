SPECIFICATION Spec
CONSTANTS NFiles = 2  T = {0, 1, 2, 3}  FenceT = {0, 1, 2, 3}
INVARIANT StagesYieldAnswer
CHECK_DEADLOCK FALSE
