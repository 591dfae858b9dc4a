SPECIFICATION Spec
CONSTANTS Top = 2 Alen = 2 Junk = 6
INVARIANTS NonePassed Forward
CHECK_DEADLOCK FALSE
