CONSTANTS Callers = {1, 2}
 Handles = {1, 2}
 Names = {"a", "b"}
 MaxId = 3
 Unlink = FALSE
INIT Init
NEXT Next
INVARIANTS RetOk NothingLost OneEach
CHECK_DEADLOCK FALSE
