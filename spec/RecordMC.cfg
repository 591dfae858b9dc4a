SPECIFICATION Spec
CONSTANT MaxDamage = 1
INVARIANT RoundTrip Within
CHECK_DEADLOCK FALSE
