SPECIFICATION MSpec
CONSTANTS N = 3
 V = 1
INVARIANTS OnceEach Total Project NoneOnly
CHECK_DEADLOCK FALSE
