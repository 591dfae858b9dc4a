SPECIFICATION Spec
CONSTANT NFiles = 3
INVARIANTS Independent OffsetLaw Unmerged Tested
CHECK_DEADLOCK FALSE
