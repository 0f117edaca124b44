CONSTANTS Chunk = 3
 L = 5
 E = 3
 L3 = 3
 E3 = 2
SPECIFICATION MCSpec
INVARIANT CInv
CHECK_DEADLOCK FALSE
