SPECIFICATION SSpec
CONSTANTS MaxLen = 1
 Duts = {1, 2}
INVARIANTS Exact OrderOnce Refused NoCut
CHECK_DEADLOCK FALSE
