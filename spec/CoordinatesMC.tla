----------------------------- MODULE CoordinatesMC -----------------------------
(* All walks over the frames from every point of a small matrix: the frames agree.    *)
EXTENDS Coordinates, TLC, FiniteSets
CONSTANTS Angles, Sizes, MaxLen
A2 == {<<1, 0, 1>>, <<0, 1, 1>>, <<-4, 3, 5>>}
A3 == {<<1, 0, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<-1, 0, 1>>}
S2 == {<<1, 1>>, <<2, 3>>}
S3 == {<<1, 1>>, <<2, 3>>, <<3, 4>>}
VARIABLES seen, len
mvars == <<cvars, seen, len>>
Rots == Angles \X Angles \X Angles
(* pitches are multiples of 4 * the denominator, so that everything stays exact *)
MInit == /\ \E r \in Rots, s \in Sizes, t \in {<<0, 0, 0>>, <<7, -30, 1000>>} :
              dut = [px |-> 4 * Denom(r), py |-> 12 * Denom(r), nc |-> s[1], nr |-> s[2], rot |-> r, tr |-> t]
         /\ frame = "index"
         /\ pos \in (1 .. 4 * dut.nc + 3) \X (1 .. 4 * dut.nr + 3)
         /\ seen = [index |-> <<pos>>, local |-> <<>>, global |-> <<>>, error |-> <<>>] /\ len = 0
Step == /\ len < MaxLen /\ len' = len + 1
        /\ seen' = IF seen[frame'] = <<>> THEN [seen EXCEPT ![frame'] = <<pos'>>] ELSE seen
MLocal == GoLocal /\ Step
MIndex == GoIndex /\ Step
MGlobal == GoGlobal /\ Step
MBack == GoBack /\ Step
MNext == MLocal \/ MIndex \/ MGlobal \/ MBack
MSpec == MInit /\ [][MNext]_mvars
(* every return to a frame finds the same coordinates *)
RoundTrip == seen[frame] = <<pos>>
(* exactly the points outside of the matrix are rejected, and never later *)
Rejected == frame = "error" <=> (len > 0 /\ ~InMatrix(dut, seen.index[1]))
Nb == {IndexToLocal(dut, <<4 * a, 4 * b>>) : a \in 1 .. dut.nc, b \in 1 .. dut.nr}
(* equidistant with the pitch, symmetric about the centre *)
Grid == frame = "local" =>
        LET i == seen.index[1] IN
        /\ IndexToLocal(dut, <<i[1] + 4, i[2] + 4>>) = <<pos[1] + dut.px, pos[2] + dut.py, 0>>
        /\ IndexToLocal(dut, <<4 * dut.nc + 4 - i[1], 4 * dut.nr + 4 - i[2]>>) = <<-pos[1], -pos[2], 0>>
        /\ (i[1] % 4 = 0 /\ i[2] % 4 = 0) => pos \in Nb
(* distances to the origin are kept *)
Rigid == frame = "global" =>
         LET g == [k \in 1 .. 3 |-> pos[k] - dut.tr[k]] l == seen.local[1] IN
         g[1] * g[1] + g[2] * g[2] + g[3] * g[3] = l[1] * l[1] + l[2] * l[2]
===============================================================================
