SPECIFICATION Spec
CONSTANTS MaxOps = 9
Slots = {1, 2}
INVARIANTS TypeOk NothingDangles NothingLeft NothingEarly
PROPERTY Kept
CHECK_DEADLOCK FALSE
