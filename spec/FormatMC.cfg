SPECIFICATION Spec
CONSTANTS FirstYear = 1998 LastYear = 2008
INVARIANT Agrees ClockAgrees
CHECK_DEADLOCK FALSE
