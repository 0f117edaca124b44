SPECIFICATION ESpec
CONSTANTS MaxLen = 1
 Duts = {1, 2}
CHECK_DEADLOCK FALSE
