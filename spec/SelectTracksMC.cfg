SPECIFICATION SSpec
CONSTANTS MaxLen = 2
 Duts = {1}
INVARIANTS Exact OrderOnce Refused NoCut
CHECK_DEADLOCK FALSE
