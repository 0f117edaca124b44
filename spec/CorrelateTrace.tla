---------------------------- MODULE CorrelateTrace ----------------------------
(* Recordings, one per (reference, DUT): a, b: hits of reference and DUT as sequences *)
(* of [e, x, y] with x, y local positions in 1/8 um; ga, gb: geometry                  *)
(* [w, h: size in um; m: <<m11, m12, m21, m22>> global orientation (signed permutation  *)
(* of x and y); tx, ty: translation in um]; rx, ry: bin size in um;                    *)
(* hx, hy: stored non-zero bins <<DUT bin, reference bin, n>>; sx, sy: stored shapes;   *)
(* ex, ey: stored extents << <<ref low, ref high>>, <<dut low, dut high>> >> in 1/8 um; *)
(* redx, redy: [min, max, over]: smallest and largest entry of the background-reduced   *)
(* histograms; rankone: no correlation: the histogram is an outer product; exc.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Abs(x) == IF x < 0 THEN -x ELSE x
CeilDiv(a, b) == -((-a) \div b)
(* size of the DUT along global axis i (1: x, 2: y) and global position relative to its centre *)
Size(g, i) == Abs(g.m[2 * i - 1]) * g.w + Abs(g.m[2 * i]) * g.h
Rel(g, hit, i) == g.m[2 * i - 1] * hit.x + g.m[2 * i] * hit.y
NBins(g, i, r) == CeilDiv(Size(g, i), r)
Bin(g, hit, i, r) == (Rel(g, hit, i) + 4 * NBins(g, i, r) * r) \div (8 * r)
Ext(g, t, i, r) == <<8 * t - 4 * NBins(g, i, r) * r, 8 * t + 4 * NBins(g, i, r) * r>>
Pairs == {p \in (DOMAIN T.a) \X (DOMAIN T.b) : T.a[p[1]].e = T.b[p[2]].e}
BinOf(p, i, r) == <<Bin(T.gb, T.b[p[2]], i, r), Bin(T.ga, T.a[p[1]], i, r)>>
RECURSIVE Total(_, _)
Total(h, k) == IF k = 0 THEN 0 ELSE h[k][3] + Total(h, k - 1)
HistOk(h, P, i, r) == /\ \A k \in DOMAIN h : Cardinality({p \in P : BinOf(p, i, r) = <<h[k][1], h[k][2]>>}) = h[k][3]
                      /\ Total(h, Len(h)) = Cardinality(P)
Fails ==
  IF T.exc # "" THEN {"correlating failed"}
  ELSE LET P == Pairs IN
       (IF ~HistOk(T.hx, P, 1, T.rx) THEN {"the x histogram does not count each pair once in its bins"} ELSE {})
  \cup (IF ~HistOk(T.hy, P, 2, T.ry) THEN {"the y histogram does not count each pair once in its bins"} ELSE {})
  \cup (IF T.sx # <<NBins(T.gb, 1, T.rx), NBins(T.ga, 1, T.rx)>> \/ T.sy # <<NBins(T.gb, 2, T.ry), NBins(T.ga, 2, T.ry)>>
        THEN {"shape of the histograms"} ELSE {})
  \cup (IF T.ex # <<Ext(T.ga, T.ga.tx, 1, T.rx), Ext(T.gb, T.gb.tx, 1, T.rx)>> \/ T.ey # <<Ext(T.ga, T.ga.ty, 2, T.ry), Ext(T.gb, T.gb.ty, 2, T.ry)>>
        THEN {"stored extents"} ELSE {})
  \cup (IF \E q \in {T.redx, T.redy} : q[1] # 0 THEN {"the background-reduced histogram does not start at zero"} ELSE {})
  \cup (IF (T.rankone[1] /\ T.redx[2] > 1) \/ (T.rankone[2] /\ T.redy[2] > 1) THEN {"background without correlation is not removed"} ELSE {})
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
