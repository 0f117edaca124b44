SPECIFICATION ESpec
CONSTANTS Depth = 0
 OpLen = 1
CHECK_DEADLOCK FALSE
