SPECIFICATION MSpec
CONSTANTS Depth = 4
 OpLen = 1
INVARIANTS TypeOk Saved
PROPERTIES Again FailSame Kept
CHECK_DEADLOCK FALSE
