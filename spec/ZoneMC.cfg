CONSTANTS MaxItems = 4
 MaxReads = 6
INIT Init
NEXT Next
INVARIANTS Refuses Accepts Delivers Counts Zone1
CHECK_DEADLOCK FALSE
