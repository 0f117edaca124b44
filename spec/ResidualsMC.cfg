SPECIFICATION MSpec
CONSTANTS N = 2
 V = 2
INVARIANTS OnceEach Total Project NoneOnly
CHECK_DEADLOCK FALSE
