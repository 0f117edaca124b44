SPECIFICATION ESpec
CONSTANTS MaxHits = 5
 Cols = 2
 EvMax = 3
INVARIANTS RangeOk
CHECK_DEADLOCK FALSE
