SPECIFICATION Spec
CONSTANTS NFiles = 2  T = {1, 2, 3}  FenceT = {1, 2, 3}
INVARIANT StagesYieldAnswer
CHECK_DEADLOCK FALSE
