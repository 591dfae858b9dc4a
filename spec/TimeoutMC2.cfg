SPECIFICATION Spec
CONSTANTS N = 3 Costs = {1, 3} Tos = {1, 2} Dls = {2}
INVARIANTS NothingLost OnlyWhenDue NotPastLimit
PROPERTY Ends
CHECK_DEADLOCK FALSE
