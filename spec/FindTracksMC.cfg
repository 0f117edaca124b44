CONSTANTS K = 3
 P = 3
 Sep = 8
 Slopes <- SlopesFew
 Sels <- SelsAll
 MissOn = TRUE
 K2 = 2
 P2 = 3
 Coord = {0, 1, 5}
 Pos <- MPos
SPECIFICATION MSpec
INVARIANTS FInv Found
CHECK_DEADLOCK FALSE
