SPECIFICATION FSpec
CONSTANTS MaxLen = 3
 Xs = {0, 1, 2}
 Ys = {0, 1}
INVARIANTS Exact OnlyOwnEvent AllPairs Partner
CHECK_DEADLOCK FALSE
