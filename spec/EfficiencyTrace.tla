---------------------------- MODULE EfficiencyTrace ----------------------------
(* Recordings of calculate_efficiency, one per DUT: rows, cfg, exc, skip: no output   *)
(* group; out: edges, trk, with, hits: <<bx, by, count>> of the bins that are not     *)
(* empty; eff: <<bx, by, efficiency in 1/1000 %>> of the bins with a value; low: bins *)
(* that are masked; mean: per quantity <<bx, by, mean times number of tracks with hit>>*)
(* (bins with hits); cq, cf: histograms of charge and frame; pix: <<col, row,         *)
(* efficiency>>; pairs: <<bx, by, col, row, count>> of hit pixels relative to the     *)
(* pixel of the bin; reg: per region [eff: in ppm, cq, cf, cs, sh, pix, trk, with,     *)
(* eff2, mean, shapes: <<bx, by, shape, count>>]                                       *)
EXTENDS Efficiency, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
tvars == <<evars, c>>
T == Traces[c]
(* everything in one LET, so that it is computed once *)
Fails ==
  LET Cfg == [T.cfg EXCEPT !.mask = {T.cfg.mask[k] : k \in DOMAIN T.cfg.mask}]
      Dom == DOMAIN T.rows
      O == [i \in Dom |-> Off(Cfg, T.rows[i])]
      U == {i \in Dom : Used(Cfg, T.rows[i])}
      V == {i \in U : Valid(Cfg, T.rows[i])}
      (* entries of a histogram of the values k[i], i \in S *)
      Hist(ent, S, k) == /\ \A j \in DOMAIN ent : LET e == ent[j] IN e[Len(e)] = Cardinality({i \in S : k[i] = SubSeq(e, 1, Len(e) - 1)})
                         /\ \A i \in S : \E j \in DOMAIN ent : SubSeq(ent[j], 1, Len(ent[j]) - 1) = k[i]
      Ratio(v, h, t, unit) == Abs(v * t - unit * h) <= t
      Effs(ent, S, H, k, unit) == /\ \A j \in DOMAIN ent : LET b == SubSeq(ent[j], 1, 2)
                                                                t == Cardinality({i \in S : k[i] = b})
                                                            IN t > 0 /\ Ratio(ent[j][3], Cardinality({i \in H : k[i] = b}), t, unit)
                                  /\ \A i \in S : \E j \in DOMAIN ent : SubSeq(ent[j], 1, 2) = k[i]
      (* sums of f over the tracks of a bin *)
      Sums(ent, S, k, f) == /\ \A j \in DOMAIN ent : ent[j][3] = SumOver(f, {i \in S : k[i] = SubSeq(ent[j], 1, 2)})
                            /\ {SubSeq(ent[j], 1, 2) : j \in DOMAIN ent} = {k[i] : i \in S}
      (* histogram given as a sequence, from value 0 on *)
      Line(h, S, f) == /\ \A i \in S : f[i] + 1 \in DOMAIN h
                       /\ \A v \in DOMAIN h : h[v] = Cardinality({i \in S : f[i] = v - 1})
      Of(q) == [i \in Dom |-> IF T.rows[i].hit = <<>> THEN 0
                              ELSE CASE q = "x" -> T.rows[i].hit[1] - O[i][1] [] q = "y" -> T.rows[i].hit[2] - O[i][2] [] q = "d" -> T.rows[i].d
                                     [] q = "q" -> T.rows[i].q [] q = "f" -> T.rows[i].f [] q = "n" -> T.rows[i].n]
      F(ok, msg) == IF ok THEN {} ELSE {msg}
      EdgesOk(a) == LET e == T.out.edges[a] IN Len(e) = NBins(Cfg, a) + 1 /\ \A k \in DOMAIN e : e[k] = Lo(Cfg, a) + (k - 1) * Cfg.res[a]
      Quant == {"x", "y", "d", "q", "f", "n"}
      Shapes == <<1, 3, 5, 13, 14, 7, 11, 15>>
      RegFails(g) ==
        LET R == T.out.reg[g]
            S == {i \in U : InRegion(Cfg.regions[g], O[i])}
            H == S \cap V
            cell == [i \in Dom |-> [a \in Axes |-> Cell(Cfg, O[i])[a] \div Cfg.cell[a] + 1]]
            pix == [i \in Dom |-> Pix(Cfg, O[i])]
            P == {i \in S : OnPixel(Cfg, O[i])}
            sh == [i \in Dom |-> cell[i] \o <<T.rows[i].sh>>]
        IN F(IF S = {} THEN R.eff = 0 ELSE Ratio(R.eff, Cardinality(H), Cardinality(S), 1000000), "efficiency of region")
           \cup F(Line(R.cq, H, Of("q")), "charge histogram of region") \cup F(Line(R.cf, H, Of("f")), "frame histogram of region")
           \cup F(Line(R.cs, H, Of("n")), "cluster size histogram of region")
           \cup F(Hist(R.sh, H, [i \in Dom |-> <<T.rows[i].sh>>]), "cluster shape histogram of region")
           \cup F(Effs(R.pix, P, P \cap H, pix, 100000), "pixel efficiency of region")
           \cup F(Hist(R.trk, S, cell), "in-pixel tracks") \cup F(Hist(R.with, H, cell), "in-pixel tracks with hit")
           \cup F(Effs(R.eff2, S, H, cell, 100000), "in-pixel efficiency")
           \cup UNION {F(Sums(R.mean[q], H, cell, Of(q)), "in-pixel mean of " \o q) : q \in Quant}
           \cup F(Hist(R.shapes, {i \in H : \E k \in DOMAIN Shapes : Shapes[k] = T.rows[i].sh}, sh), "in-pixel cluster shapes")
      (* the pixel of a bin's centre (never in the middle between two) *)
      NearPix(v, a) == LET p == PixOf(Cfg, v, a) IN IF p < 1 THEN 1 ELSE IF p > Cfg.n[a] THEN Cfg.n[a] ELSE p
      CentrePix(b, a) == NearPix(Lo(Cfg, a) + (2 * b - 1) * (Cfg.res[a] \div 2), a)
      Window(a) == LET s == Ceil(2000, Cfg.size[a]) IN IF s % 2 = 0 THEN s + 1 ELSE s + 2
      PairSet == {<<i, k>> \in V \X (1 .. 9) : T.rows[i].pixels # <<>> /\ Inside(Cfg, O[i]) /\ k \in DOMAIN T.rows[i].pixels}
      PairOf(p) == LET b == Bin(Cfg, O[p[1]]) IN b \o [a \in Axes |-> T.rows[p[1]].pixels[p[2]][a] - CentrePix(b[a], a)]
      PairsOk == LET Q == {p \in PairSet : \A a \in Axes : Abs(PairOf(p)[a + 2]) <= Window(a) \div 2}
                 IN /\ \A j \in DOMAIN T.out.pairs : T.out.pairs[j][5] = Cardinality({p \in Q : PairOf(p) = SubSeq(T.out.pairs[j], 1, 4)})
                    /\ \A p \in Q : \E j \in DOMAIN T.out.pairs : SubSeq(T.out.pairs[j], 1, 4) = PairOf(p)
      In == {i \in U : Inside(Cfg, O[i])}
      Dense(b) == Cardinality({i \in In : Bin(Cfg, O[i]) = b}) >= Cfg.dens
      Zero == \A i \in V \cap In : ~Dense(Bin(Cfg, O[i]))
  IN
  IF In = {} THEN F(T.exc # "" \/ T.skip, "output without tracks")
  ELSE IF Zero /\ (V \cap In = {} \/ \E i \in In : Dense(Bin(Cfg, O[i]))) THEN F(T.exc = "RuntimeError", "no efficiency at all accepted: " \o T.exc)
  ELSE IF Zero THEN {}
  ELSE IF T.exc # "" THEN {"exception: " \o T.exc}
  ELSE IF T.skip THEN {"no output"}
  ELSE LET b == [i \in Dom |-> IF i \in In THEN Bin(Cfg, O[i]) ELSE <<0, 0>>]
           hb == [i \in Dom |-> IF T.rows[i].hit # <<>> /\ Inside(Cfg, T.rows[i].hit) THEN Bin(Cfg, T.rows[i].hit) ELSE <<0, 0>>]
           P == {i \in U : OnPixel(Cfg, O[i])}
           pix == [i \in Dom |-> Pix(Cfg, O[i])]
           X == T.out
       IN F(\A a \in Axes : EdgesOk(a), "edges of the bins")
          \cup F(Hist(X.trk, In, b), "tracks") \cup F(Hist(X.with, V \cap In, b), "tracks with hit")
          \cup F(Hist(X.hits, {i \in V : hb[i] # <<0, 0>>}, hb), "hits")
          \cup F(Effs(X.eff, In, V \cap In, b, 100000), "efficiency")
          \cup F({<<x, y>> \in AllBins(Cfg) : ~Dense(<<x, y>>)} = {X.low[j] : j \in DOMAIN X.low}, "mask of bins with few tracks")
          \cup UNION {F(Sums(X.mean[q], V \cap In, b, Of(q)), "mean of " \o q) : q \in Quant}
          \cup F(Line(X.cq, V, Of("q")), "charge histogram") \cup F(Line(X.cf, V, Of("f")), "frame histogram")
          \cup F(Effs(X.pix, P, P \cap V, pix, 100000), "pixel efficiency")
          \cup F(Len(X.reg) = Len(Cfg.regions), "number of regions") \cup UNION {RegFails(g) : g \in DOMAIN X.reg}
          \cup F(\A j \in DOMAIN X.total : X.total[j] = <<Cardinality(V \cap In), Cardinality(In)>>, "mean efficiency")
          \cup F(~Cfg.clusters \/ PairsOk, "hit pixels around the track")
TInit == c = 1 /\ rows = <<>> /\ cfg = <<>> /\ pos = 0 /\ trk = <<>> /\ with = <<>> /\ mean = <<>> /\ reg = <<>> /\ started = FALSE
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
         /\ c' = c + 1 /\ UNCHANGED evars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED evars
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
