SPECIFICATION Spec
CONSTANT NFiles = 2
INVARIANTS Independent OffsetLaw Unmerged Tested
CHECK_DEADLOCK FALSE
