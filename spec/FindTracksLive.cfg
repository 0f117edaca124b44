CONSTANTS K = 3
 P = 3
 Sep = 8
 Slopes <- SlopesDef
 Sels <- SelsFew
 MissOn = TRUE
 K2 = 2
 P2 = 3
 Coord = {0, 2}
 Pos <- APos
SPECIFICATION LSpec
PROPERTY Ends
CHECK_DEADLOCK FALSE
