------------------------------- MODULE Residuals -------------------------------
(* Residual histograms of one DUT (property C17). A track row is                      *)
(*   [ev, hit: position of the hit or <<>>, off: intersection of the track, ok: fit]  *)
(* The file is read in chunks that end at events. The binning is chosen when the      *)
(* first usable track is seen and then kept; every usable track is counted exactly    *)
(* once in every histogram whose range covers it.                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows, lim,  \* lim: limits <<x, y>> of the hit position, each <<lower, upper>>, <<>>: none
          pos,        \* rows read
          edges,      \* <<>> or the binning [x, y: residuals, px, py: positions]
          hist        \* counts per histogram: function of the bin
rvars == <<rows, lim, pos, edges, hist>>
Kinds == {"x", "y", "xx", "yx", "yy", "xy"}   \* residual axis, position axis
ResAxis(h) == IF h \in {"x", "xx", "xy"} THEN 1 ELSE 2
PosAxis(h) == CASE h \in {"x", "y"} -> 0 [] h \in {"xx", "yx"} -> 1 [] OTHER -> 2
Usable(r) == r.hit # <<>> /\ r.ok
Within(r, a) == (lim[a][1] = <<>> \/ r.hit[a] >= lim[a][1][1]) /\ (lim[a][2] = <<>> \/ r.hit[a] <= lim[a][2][1])
(* the limit along the position axis is not applied: the histogram shows what is outside *)
Selected(h, r) == Usable(r) /\ CASE PosAxis(h) = 0 -> Within(r, 1) /\ Within(r, 2)
                                 [] PosAxis(h) = 1 -> Within(r, 2)
                                 [] OTHER -> Within(r, 1)
(* bins are half-open, the last one includes its upper edge; 0: outside *)
Bin(e, v) == LET n == Len(e) IN
             IF v < e[1] \/ v > e[n] THEN 0 ELSE IF v = e[n] THEN n - 1
             ELSE CHOOSE k \in 1 .. n - 1 : e[k] <= v /\ v < e[k + 1]
(* float edges: e is the smallest integer that is not below the edge, last: the largest one not above *)
BinF(e, last, v) == LET n == Len(e) IN
             IF v < e[1] \/ v > last THEN 0 ELSE IF v >= e[n] THEN n - 1
             ELSE CHOOSE k \in 1 .. n - 1 : e[k] <= v /\ v < e[k + 1]
ResEdges(h, ed) == IF ResAxis(h) = 1 THEN ed.x ELSE ed.y
PosEdges(h, ed) == IF PosAxis(h) = 1 THEN ed.px ELSE ed.py
Res(h, r) == r.hit[ResAxis(h)] - r.off[ResAxis(h)]
Cell(h, ed, r) == IF ~Selected(h, r) THEN <<0, 0>>
                  ELSE LET b == Bin(ResEdges(h, ed), Res(h, r))
                           p == IF PosAxis(h) = 0 THEN 1 ELSE Bin(PosEdges(h, ed), r.off[PosAxis(h)])
                       IN IF b = 0 \/ p = 0 THEN <<0, 0>> ELSE <<p, b>>
Cells(h, ed) == (IF PosAxis(h) = 0 THEN {1} ELSE 1 .. Len(PosEdges(h, ed)) - 1) \X (1 .. Len(ResEdges(h, ed)) - 1)
Count(h, ed, S, c) == Cardinality({k \in S : Cell(h, ed, rows[k]) = c})
ChunkEnd(n) == pos + n = Len(rows) \/ (pos + n < Len(rows) /\ rows[pos + n].ev # rows[pos + n + 1].ev)
NewRows(n) == pos + 1 .. pos + n
AnyUsable(n) == \E k \in NewRows(n) : Usable(rows[k])
RInit(rs, l) == rows = rs /\ lim = l /\ pos = 0 /\ edges = <<>> /\ hist = <<>>
Skip(n) == /\ n \in 1 .. Len(rows) - pos /\ ChunkEnd(n) /\ ~AnyUsable(n)
           /\ pos' = pos + n /\ UNCHANGED <<rows, lim, edges, hist>>
First(n, ed) == /\ edges = <<>> /\ n \in 1 .. Len(rows) - pos /\ ChunkEnd(n) /\ AnyUsable(n)
                /\ edges' = <<ed>> /\ pos' = pos + n
                /\ hist' = [h \in Kinds |-> [c \in Cells(h, ed) |-> Count(h, ed, NewRows(n), c)]]
                /\ UNCHANGED <<rows, lim>>
More(n) == /\ edges # <<>> /\ n \in 1 .. Len(rows) - pos /\ ChunkEnd(n) /\ AnyUsable(n)
           /\ pos' = pos + n
           /\ hist' = [h \in Kinds |-> [c \in DOMAIN hist[h] |-> hist[h][c] + Count(h, edges[1], NewRows(n), c)]]
           /\ UNCHANGED <<rows, lim, edges>>
===============================================================================
