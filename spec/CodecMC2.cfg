CONSTANTS Vals = {0, 255, 77, 130}
 Max = 5
 Foreign = {61, 200}
INIT Init
NEXT Next
INVARIANTS Whole Back RoundTrips Addresses Numbers
CHECK_DEADLOCK FALSE
