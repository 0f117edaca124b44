SPECIFICATION ESpec
CONSTANTS MaxLen = 4 MaxEv = 2 Chunks = {1, 2, 3}
CHECK_DEADLOCK FALSE
