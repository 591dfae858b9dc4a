SPECIFICATION Spec
CONSTANTS Top = 2 Alen = 2 Junk = 8
INVARIANTS NonePassed Forward
CHECK_DEADLOCK FALSE
