SPECIFICATION MSpec
CONSTANTS MaxChunks = 3
INVARIANTS FileOk InputKept Untouched UnselectedKept Recovered Before
CHECK_DEADLOCK FALSE
