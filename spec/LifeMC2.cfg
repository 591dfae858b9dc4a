SPECIFICATION Spec
CONSTANTS MaxOps = 12
Slots = {1, 2}
INVARIANTS TypeOk NothingDangles NothingLeft NothingEarly
PROPERTY Kept
CHECK_DEADLOCK FALSE
