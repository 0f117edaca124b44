------------------------------ MODULE Coordinates ------------------------------
(* Coordinate frames of a DUT (property C18): pixel index, local position, global     *)
(* position. A walk converts a point from frame to frame.                             *)
(* Lengths are integers in a unit chosen by the instance; an index is counted in      *)
(* quarters of a pixel (the centre of the first pixel is 4).                          *)
EXTENDS Geometry
VARIABLES dut,     \* [px, py: pitch; nc, nr: number of columns and rows; rot; tr; grid: has pixels]
          frame,   \* "index", "local", "global", "error"
          pos
cvars == <<dut, frame, pos>>
Abs(a) == IF a < 0 THEN -a ELSE a
InMatrix(d, i) == i[1] >= 2 /\ i[1] <= 4 * d.nc + 2 /\ i[2] >= 2 /\ i[2] <= 4 * d.nr + 2
InSensor(d, p) == 2 * Abs(p[1]) <= d.nc * d.px /\ 2 * Abs(p[2]) <= d.nr * d.py
(* the origin of the local frame is the centre of the matrix *)
IndexToLocal(d, i) == <<DivR(d.px * (i[1] - 2 - 2 * d.nc), 4), DivR(d.py * (i[2] - 2 - 2 * d.nr), 4), 0>>
LocalToIndex(d, p) == <<DivR(4 * p[1], d.px) + 2 + 2 * d.nc, DivR(4 * p[2], d.py) + 2 + 2 * d.nr>>
LocalToGlobal(d, p) == ToGlobal(d.rot, d.tr, p)
GlobalToLocal(d, p) == ToLocal(d.rot, d.tr, p)
(* placement with some of the six parameters replaced (<<>>: the DUT's own) *)
Placed(d, ov) == [d EXCEPT !.tr = [k \in 1 .. 3 |-> IF ov.tr[k] = <<>> THEN d.tr[k] ELSE ov.tr[k][1]],
                           !.rot = [k \in 1 .. 3 |-> IF ov.rot[k] = <<>> THEN d.rot[k] ELSE ov.rot[k]]]
GoLocal == /\ frame = "index"
           /\ IF InMatrix(dut, pos) THEN frame' = "local" /\ pos' = IndexToLocal(dut, pos) ELSE frame' = "error" /\ pos' = pos
           /\ UNCHANGED dut
GoIndex == /\ frame = "local"
           /\ IF InSensor(dut, pos) THEN frame' = "index" /\ pos' = LocalToIndex(dut, pos) ELSE frame' = "error" /\ pos' = pos
           /\ UNCHANGED dut
GoGlobal == frame = "local" /\ frame' = "global" /\ pos' = LocalToGlobal(dut, pos) /\ UNCHANGED dut
GoBack == frame = "global" /\ frame' = "local" /\ pos' = GlobalToLocal(dut, pos) /\ UNCHANGED dut
(* position within the primitive cell (cx * cy pixels) *)
Cell(d, p, cx, cy) == <<(p[1] + (d.nc * d.px) \div 2) % (cx * d.px), (p[2] + (d.nr * d.py) \div 2) % (cy * d.py)>>
Corners(d) == {IndexToLocal(d, <<a, b>>) : a \in {2, 4 * d.nc + 2}, b \in {2, 4 * d.nr + 2}}
Min3(S, k) == CHOOSE v \in {p[k] : p \in S} : \A p \in S : v <= p[k]
Max3(S, k) == CHOOSE v \in {p[k] : p \in S} : \A p \in S : v >= p[k]
Extent(d, global) == LET S == IF global THEN {LocalToGlobal(d, p) : p \in Corners(d)} ELSE Corners(d) IN
                     [k \in 1 .. 3 |-> <<Min3(S, k), Max3(S, k)>>]
(* known sensors: pitch in 10 nm, columns, rows; pixels per primitive cell *)
Sensors == [FEI4 |-> <<25000, 5000, 80, 336, 2, 1>>, PSI46 |-> <<15000, 10000, 52, 80, 2, 1>>,
            RD53A |-> <<5000, 5000, 400, 192, 1, 1>>, RD53A_8x8 |-> <<5000, 5000, 400, 192, 8, 8>>,
            ITkPix |-> <<5000, 5000, 400, 384, 1, 1>>, ITkPix_8x8 |-> <<5000, 5000, 400, 384, 8, 8>>,
            TJMonopix1 |-> <<4000, 3600, 112, 224, 1, 1>>, TJMonopix1_2x2 |-> <<4000, 3600, 112, 224, 2, 2>>,
            Mimosa26 |-> <<1840, 1840, 1152, 576, 1, 1>>, DepfetH5z85 |-> <<5000, 8500, 64, 64, 1, 1>>,
            DepfetH5z55 |-> <<5000, 5500, 64, 64, 1, 1>>, Timepix3 |-> <<5500, 5500, 256, 256, 1, 1>>]
===============================================================================
