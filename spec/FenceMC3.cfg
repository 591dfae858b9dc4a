SPECIFICATION Spec
CONSTANTS NFiles = 3  T = {1, 2}  FenceT = {1, 2}
INVARIANT StagesYieldAnswer
CHECK_DEADLOCK FALSE
