CONSTANTS MaxN = 4
 MaxCores = 3
SPECIFICATION SSpec
INVARIANTS InOrder Whole Reported NoFalseFailure Bounded
PROPERTY Terminates
