CONSTANTS L = 4
 W = 2
 H = 3
 MaxRoot = 2
 Filters = {1, 3}
 Chunks = {3}
 Ths = {1, 3}
SPECIFICATION Spec
INVARIANT PInv
CHECK_DEADLOCK FALSE
