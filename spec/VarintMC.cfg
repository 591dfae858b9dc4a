SPECIFICATION Spec
CONSTANTS Vals <- MCVals
 Max = 10
INVARIANTS RoundTrip NeverBad ReadsOnlyItsBytes Minimal
CHECK_DEADLOCK FALSE
