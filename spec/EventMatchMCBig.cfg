SPECIFICATION MCSpec
INVARIANT MInv
CONSTANTS MaxLen = 5 MaxEv = 4
CHECK_DEADLOCK FALSE
