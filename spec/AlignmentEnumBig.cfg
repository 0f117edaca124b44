SPECIFICATION ESpec
CONSTANTS MaxChunks = 4
CHECK_DEADLOCK FALSE
