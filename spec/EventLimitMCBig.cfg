SPECIFICATION USpec
CONSTANTS MaxChunks = 5
 MaxEv = 5
 MaxLim = 26
INVARIANTS AtMost OneChunk LastFull NothingLost Spread
CHECK_DEADLOCK FALSE
