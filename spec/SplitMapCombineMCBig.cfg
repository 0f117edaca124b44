CONSTANTS MaxN = 6
 MaxCores = 4
SPECIFICATION SSpec
INVARIANTS InOrder Whole Reported NoFalseFailure Bounded
PROPERTY Terminates
