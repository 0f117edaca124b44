CONSTANTS L = 4
 W = 2
 H = 3
 MaxRoot = 4
 Filters = {2, 3}
 Chunks = {5}
 Ths = {1, 2, 4}
SPECIFICATION Spec
INVARIANT PInv
CHECK_DEADLOCK FALSE
