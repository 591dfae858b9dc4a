SPECIFICATION Spec
CONSTANTS N = 4 Costs = {0, 1, 3} Tos = {0, 1, 2} Dls = {0, 2, 5}
INVARIANTS NothingLost OnlyWhenDue NotPastLimit Progress
CHECK_DEADLOCK FALSE
