CONSTANTS Chunk = 2
 L = 3
 E = 2
 L3 = 2
 E3 = 2
SPECIFICATION MCSpec
INVARIANT CInv
CHECK_DEADLOCK FALSE
