SPECIFICATION MSpec
CONSTANTS MaxChunks = 2
INVARIANTS FileOk InputKept Untouched UnselectedKept Recovered Before
CHECK_DEADLOCK FALSE
