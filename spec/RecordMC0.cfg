SPECIFICATION Spec
CONSTANT MaxDamage = 0
INVARIANT RoundTrip Within
CHECK_DEADLOCK FALSE
