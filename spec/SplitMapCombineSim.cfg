CONSTANTS MaxN = 7
 MaxCores = 4
INIT SInitSim
NEXT SNextSim
INVARIANT Emit
CHECK_DEADLOCK FALSE
