CONSTANT K = 9
INIT Init
NEXT Next
INVARIANTS Shape Order BlackRoot
CHECK_DEADLOCK FALSE
