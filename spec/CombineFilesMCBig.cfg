SPECIFICATION MCSpec
CONSTANTS MaxLen = 1
 NFiles = 3
INVARIANTS Exact OnlyNamed
CHECK_DEADLOCK FALSE
