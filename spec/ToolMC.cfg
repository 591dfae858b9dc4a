CONSTANTS TMax = 3
 NTok = 4
 Step = 1500
INIT Init
NEXT Next
INVARIANTS Strict TimesInv Spellings Size Dashes
CHECK_DEADLOCK FALSE
