------------------------------ MODULE ConvertHits ------------------------------
(* Conversion of hit files between pixel index and local position (property C22).     *)
(* Files are converted one after the other with the geometry of their own DUT, in     *)
(* chunks that end at events. A hit is [ev, a: everything else, q: index in quarters  *)
(* of a pixel, or local position].                                                    *)
EXTENDS Integers, Sequences
VARIABLES duts,   \* geometry of the DUT of each file: [px, py, nc, nr]
          files,  \* hits of each file
          toLocal,
          f,      \* current file
          pos,    \* hits of the file already converted
          outs    \* converted files (the last one possibly incomplete)
hvars == <<duts, files, toLocal, f, pos, outs>>
Rnd(a, d) == IF a >= 0 THEN (2 * a + d) \div (2 * d) ELSE -((-2 * a + d) \div (2 * d))
Local1(i, size, n) == Rnd(size * (i - 2 - 2 * n), 4)
(* nearest pixel, in quarters *)
Index1(x, size, n) == 4 * ((2 * x + size * n + 2 * size) \div (2 * size))
Tie(x, size, n) == (2 * x + size * n) % (2 * size) = 0
InIndex(d, q) == q[1] >= 2 /\ q[1] <= 4 * d.nc + 2 /\ q[2] >= 2 /\ q[2] <= 4 * d.nr + 2
InLocal(d, q) == 2 * q[1] <= d.nc * d.px /\ -2 * q[1] <= d.nc * d.px /\ 2 * q[2] <= d.nr * d.py /\ -2 * q[2] <= d.nr * d.py
Valid(d, h) == IF toLocal THEN InIndex(d, h.q) ELSE InLocal(d, h.q)
Conv(d, h) == [h EXCEPT !.q = IF toLocal THEN <<Local1(@[1], d.px, d.nc), Local1(@[2], d.py, d.nr)>>
                              ELSE <<Index1(@[1], d.px, d.nc), Index1(@[2], d.py, d.nr)>>]
HInit(ds, fs, dir) == duts = ds /\ files = fs /\ toLocal = dir /\ f = 1 /\ pos = 0 /\ outs = <<<<>>>>
Chunk(n) == /\ f <= Len(files) /\ n \in 1 .. (Len(files[f]) - pos)
            /\ IF pos + n = Len(files[f]) THEN TRUE ELSE files[f][pos + n].ev # files[f][pos + n + 1].ev
            /\ pos' = pos + n
            /\ outs' = [outs EXCEPT ![f] = @ \o [k \in 1 .. n |-> Conv(duts[f], files[f][pos + k])]]
            /\ UNCHANGED <<duts, files, toLocal, f>>
NextFile == /\ f <= Len(files) /\ pos = Len(files[f])
            /\ f' = f + 1 /\ pos' = 0
            /\ outs' = (IF f < Len(files) THEN Append(outs, <<>>) ELSE outs)
            /\ UNCHANGED <<duts, files, toLocal>>
Done == f = Len(files) + 1
(* back again: the converted files are the new input *)
Back == /\ Done /\ toLocal
        /\ toLocal' = FALSE /\ files' = outs /\ f' = 1 /\ pos' = 0 /\ outs' = <<<<>>>>
        /\ UNCHANGED duts
(* rows of a sorted table in the half-open range [lo, hi[ (<<>>: open) *)
InRange(e, lo, hi) == (lo = <<>> \/ e >= lo[1]) /\ (hi = <<>> \/ e < hi[1])
RangeOf(ev, lo, hi) == LET P(k) == InRange(ev[k], lo, hi) IN SelectSeq([k \in DOMAIN ev |-> k], P)
===============================================================================
