SPECIFICATION MSpec
CONSTANTS MaxHits = 3
 Cols = 2
 EvMax = 2
INVARIANTS Prefix Complete BackAgain Distinct
CHECK_DEADLOCK FALSE
