CONSTANTS MaxItems = 5
 MaxReads = 7
INIT Init
NEXT Next
INVARIANTS Refuses Accepts Delivers Counts Zone1
CHECK_DEADLOCK FALSE
