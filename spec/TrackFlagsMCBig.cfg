SPECIFICATION FSpec
CONSTANTS MaxLen = 4
 Xs = {0, 1, 2}
 Ys = {0, 1}
INVARIANTS Exact OnlyOwnEvent AllPairs Partner
CHECK_DEADLOCK FALSE
