SPECIFICATION MSpec
CONSTANTS N = 3
 E = 3
 R = 3
INVARIANTS Events Correlation Complete Rejected SameTotal NoRange
CHECK_DEADLOCK FALSE
