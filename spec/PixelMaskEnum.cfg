CONSTANTS L = 4
 W = 2
 H = 3
 MaxRoot = 4
 Filters = {1, 3}
 Chunks = {3}
 Ths = {1, 3}
SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
