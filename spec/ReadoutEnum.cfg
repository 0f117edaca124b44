SPECIFICATION ESpec
CONSTANTS MaxHits = 3
 EvMax = 2
CHECK_DEADLOCK FALSE
