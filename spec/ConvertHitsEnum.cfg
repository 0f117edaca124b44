SPECIFICATION ESpec
CONSTANTS MaxHits = 4
 Cols = 2
 EvMax = 2
INVARIANTS RangeOk
CHECK_DEADLOCK FALSE
