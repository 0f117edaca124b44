SPECIFICATION USpec
CONSTANTS MaxChunks = 4
 MaxEv = 4
 MaxLim = 17
INVARIANTS AtMost OneChunk LastFull NothingLost Spread
CHECK_DEADLOCK FALSE
