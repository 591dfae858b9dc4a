CONSTANT K = 11
INIT Init
NEXT Next
INVARIANTS Shape Order BlackRoot
CHECK_DEADLOCK FALSE
