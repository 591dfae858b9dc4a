SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Confluent
CHECK_DEADLOCK FALSE
