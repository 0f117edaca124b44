CONSTANTS MaxN = 7
 MaxCores = 4
INIT SInitSim
NEXT SNextLazy
INVARIANT Emit
CHECK_DEADLOCK FALSE
