SPECIFICATION MCSpec
INVARIANT CInv
CONSTANT L = 5
CHECK_DEADLOCK FALSE
