SPECIFICATION MCSpec
INVARIANT GInv
CONSTANTS L2 = 3 E2 = 2 L3 = 2 E3 = 1
CHECK_DEADLOCK FALSE
