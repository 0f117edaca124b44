SPECIFICATION FSpec
CONSTANTS MaxChunks = 3
 MaxEv = 3
 MaxLim = 10
INVARIANTS AtMost OneChunk LastFull
CHECK_DEADLOCK FALSE
