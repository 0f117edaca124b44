SPECIFICATION QSpec
CONSTANTS MaxChunks = 8
 MaxEv = 8
 MaxLim = 48
INVARIANTS AtMost OneChunk LastFull NothingLost Spread
CHECK_DEADLOCK FALSE
