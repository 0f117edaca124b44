SPECIFICATION MCSpec
CONSTANTS MaxLen = 2
 NFiles = 2
INVARIANTS Exact OnlyNamed
CHECK_DEADLOCK FALSE
