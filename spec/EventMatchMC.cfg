SPECIFICATION MCSpec
INVARIANT MInv
CONSTANTS MaxLen = 4 MaxEv = 3
CHECK_DEADLOCK FALSE
