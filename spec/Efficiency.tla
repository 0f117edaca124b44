------------------------------ MODULE Efficiency ------------------------------
(* Hit efficiency of one DUT (property C16). A row is a track: [off: intersection,   *)
(* hit: <<>> or position of the hit, q, f, cs, sh: charge, frame, size and shape].   *)
(* Lengths in units of 0.5 um, in the DUT's coordinates. The file is read in chunks; *)
(* the machine keeps, per bin, numbers of tracks and a running mean, and per region  *)
(* a moving average, as the program does.                                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows, cfg, pos, trk, with, mean, reg, started
evars == <<rows, cfg, pos, trk, with, mean, reg, started>>
Axes == 1 .. 2
Abs(x) == IF x < 0 THEN -x ELSE x
Ceil(a, b) == (a + b - 1) \div b
(* cfg: [size: pitch, n: pixels, res: bin width, ext: <<>> or extra area, cut: per   *)
(* axis <<>> (none) or distance, regions: seq of <<<<x1, x2>>, <<y1, y2>>>>,          *)
(* mask: set of disabled pixels, shift: added to the intersection]                   *)
(* ------------------------------------------------ geometry: bins and pixels       *)
NBins(c, a) == Ceil(c.n[a] * c.size[a], c.res[a]) + (IF c.ext[a] = <<>> THEN 0 ELSE 2 * Ceil(c.ext[a][1], c.res[a]))
Lo(c, a) == -((NBins(c, a) * c.res[a]) \div 2)
BinOf(c, v, a) == ((v - Lo(c, a)) \div c.res[a]) + 1
Inside(c, p) == \A a \in Axes : BinOf(c, p[a], a) \in 1 .. NBins(c, a)
Bin(c, p) == <<BinOf(c, p[1], 1), BinOf(c, p[2], 2)>>
PixOf(c, v, a) == ((v + (c.n[a] * c.size[a]) \div 2) \div c.size[a]) + 1
OnPixel(c, p) == \A a \in Axes : PixOf(c, p[a], a) \in 1 .. c.n[a]
Pix(c, p) == <<PixOf(c, p[1], 1), PixOf(c, p[2], 2)>>
(* position within the pixel *)
Cell(c, p) == [a \in Axes |-> (p[a] + (c.n[a] * c.size[a]) \div 2) % c.size[a]]
(* ------------------------------------------------ cut                             *)
Wide(c) == \A a \in Axes : c.cut[a] = <<>> \/ 2 * c.cut[a][1] >= 5 * c.size[a]
Within(c, dx, dy) ==
  LET x == Abs(dx)
      y == Abs(dy)
      box == (c.cut[1] = <<>> \/ x <= c.cut[1][1]) /\ (c.cut[2] = <<>> \/ y <= c.cut[2][1])
  IN IF ~Wide(c) \/ c.cut[1] = <<>> \/ c.cut[2] = <<>> THEN box
     ELSE LET a == c.cut[1][1] \div 2   \* whole um, as are the residuals
              b == c.cut[2][1] \div 2
          IN box /\ (IF a = b THEN (x \div 2) * (x \div 2) + (y \div 2) * (y \div 2) <= a * a
                     ELSE (x \div 2) * (x \div 2) * b * b + (y \div 2) * (y \div 2) * a * a <= a * a * b * b)
Off(c, r) == [a \in Axes |-> r.off[a] + c.shift[a]]
Res(c, r) == [a \in Axes |-> r.hit[a] - Off(c, r)[a]]
Valid(c, r) == r.hit # <<>> /\ Within(c, Res(c, r)[1], Res(c, r)[2])
(* tracks through disabled pixels, or past all pixels, are not looked at if a mask is given *)
Used(c, r) == ~c.masked \/ (OnPixel(c, Off(c, r)) /\ Pix(c, Off(c, r)) \notin c.mask)
InRegion(g, p) == \A a \in Axes : g[a][1] < p[a] /\ p[a] < g[a][2]
(* ------------------------------------------------ what the whole file says        *)
Tracks(c, R, b) == {i \in DOMAIN R : Used(c, R[i]) /\ Inside(c, Off(c, R[i])) /\ Bin(c, Off(c, R[i])) = b}
WithHit(c, R, b) == {i \in Tracks(c, R, b) : Valid(c, R[i])}
RegTracks(c, R, g) == {i \in DOMAIN R : Used(c, R[i]) /\ InRegion(g, Off(c, R[i]))}
RegHits(c, R, g) == {i \in RegTracks(c, R, g) : Valid(c, R[i])}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(f, S \ {i})
(* ------------------------------------------------ machine                         *)
AllBins(c) == (1 .. NBins(c, 1)) \X (1 .. NBins(c, 2))
EInit(R, c) == /\ rows = R /\ cfg = c /\ pos = 0 /\ started = FALSE
               /\ trk = [b \in AllBins(c) |-> 0] /\ with = trk /\ mean = [b \in AllBins(c) |-> <<0, 1>>]
               /\ reg = [g \in DOMAIN c.regions |-> [eff |-> <<0, 1>>, stat |-> 0]]
Chunk(n) == SubSeq(rows, pos + 1, pos + n)
(* mean of two means, as a fraction *)
Avg(m1, n1, m2, n2) == IF n1 + n2 = 0 THEN <<0, 1>> ELSE <<m1[1] * n1 * m2[2] + m2[1] * n2 * m1[2], m1[2] * m2[2] * (n1 + n2)>>
ReadChunk(n) ==
  /\ n \in 1 .. Len(rows) - pos
  /\ LET K == Chunk(n)
         x == [i \in DOMAIN K |-> IF K[i].hit = <<>> THEN 0 ELSE Res(cfg, K[i])[1]]
         w == [b \in AllBins(cfg) |-> WithHit(cfg, K, b)]
     IN /\ trk' = [b \in AllBins(cfg) |-> trk[b] + Cardinality(Tracks(cfg, K, b))]
        /\ with' = [b \in AllBins(cfg) |-> with[b] + Cardinality(w[b])]
        /\ mean' = [b \in AllBins(cfg) |-> IF w[b] = {} THEN mean[b] ELSE Avg(mean[b], with[b], <<SumOver(x, w[b]), Cardinality(w[b])>>, Cardinality(w[b]))]
        /\ started' = (started \/ \E i \in DOMAIN K : Used(cfg, K[i]) /\ Valid(cfg, K[i]))
        /\ reg' = [g \in DOMAIN reg |->
                     LET t == Cardinality(RegTracks(cfg, K, cfg.regions[g]))
                         h == Cardinality(RegHits(cfg, K, cfg.regions[g]))
                         s == reg[g].stat
                     IN IF s + t = 0 THEN reg[g] ELSE [eff |-> <<reg[g].eff[1] * s + h * reg[g].eff[2], reg[g].eff[2] * (s + t)>>, stat |-> s + t]]
  /\ pos' = pos + n /\ UNCHANGED <<rows, cfg>>
===============================================================================
