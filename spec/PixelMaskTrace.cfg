CONSTANT L = 12
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
