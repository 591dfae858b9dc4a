CONSTANTS Second = 7
 MaxPeriod = 9
 MaxTime = 15
INIT Init
NEXT Next
INVARIANTS TickAhead TickNear OnTick OnePerTick RateBound
CHECK_DEADLOCK FALSE
