CONSTANTS Vals = {0, 255, 77}
 Max = 4
 Foreign = {61, 10}
INIT Init
NEXT Next
INVARIANTS Whole Back RoundTrips Addresses Numbers
CHECK_DEADLOCK FALSE
