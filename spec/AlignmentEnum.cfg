SPECIFICATION ESpec
CONSTANTS MaxChunks = 2
CHECK_DEADLOCK FALSE
