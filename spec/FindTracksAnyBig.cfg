CONSTANTS K = 3
 P = 3
 Sep = 8
 Slopes <- SlopesDef
 Sels <- SelsFew
 MissOn = TRUE
 K2 = 2
 P2 = 4
 Coord = {0, 1}
 Pos <- APos
SPECIFICATION ASpec
INVARIANTS FInv
CHECK_DEADLOCK FALSE
