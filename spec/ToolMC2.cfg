CONSTANTS TMax = 5
 NTok = 5
 Step = 20000
INIT Init
NEXT Next
INVARIANTS Strict TimesInv Spellings Size Dashes
CHECK_DEADLOCK FALSE
