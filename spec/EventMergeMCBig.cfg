SPECIFICATION MCSpec
INVARIANT GInv
CONSTANTS L2 = 4 E2 = 3 L3 = 3 E3 = 2
CHECK_DEADLOCK FALSE
