------------------------------- MODULE HitCheck -------------------------------
(* Check of a hit file (property C23). A row is [ev, q: position of the hit in both  *)
(* axes]. The file is read in chunks that end at events; of what was read the        *)
(* machine keeps only the bins of the hits in the last `range` events. Out: the      *)
(* distinct event numbers, their differences, and for each axis how often a hit was  *)
(* found in bin b with an earlier hit, at most `range` events before it, in bin a.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows, range,
          geo,    \* per axis [n: bins, lo: doubled lower edge, w: doubled width, min, max: allowed positions]
          pos, evs, deltas, tail, corr, err
hvars == <<rows, range, geo, pos, evs, deltas, tail, corr, err>>
Axes == 1 .. 2
(* the upper edge belongs to the last bin *)
BinOf(g, v) == LET b == (2 * v - g.lo) \div g.w IN IF b >= g.n THEN g.n - 1 ELSE b
Good(r) == \A a \in Axes : geo[a].min <= r.q[a] /\ r.q[a] <= geo[a].max
Bins(r) == <<BinOf(geo[1], r.q[1]), BinOf(geo[2], r.q[2])>>
ChunkEnd(n) == pos + n = Len(rows) \/ (pos + n < Len(rows) /\ rows[pos + n].ev # rows[pos + n + 1].ev)
LastEv == IF evs = <<>> THEN 0 ELSE evs[Len(evs)]
Ordered(n) == \A k \in pos + 1 .. pos + n : rows[k].ev >= (IF k = pos + 1 THEN LastEv ELSE rows[k - 1].ev)
RECURSIVE Distinct(_, _)
Distinct(k, m) == IF k > m THEN <<>>
                  ELSE (IF k = pos + 1 \/ rows[k].ev # rows[k - 1].ev THEN <<rows[k].ev>> ELSE <<>>) \o Distinct(k + 1, m)
Diffs(s) == [k \in 1 .. Len(s) - 1 |-> s[k + 1] - s[k]]
(* hits in the buffer: the tail, then the new rows *)
Buf(n) == tail \o [k \in 1 .. n |-> [ev |-> rows[pos + k].ev, b |-> Bins(rows[pos + k])]]
PairsOf(B, from) == {p \in (DOMAIN B) \X (from .. Len(B)) : B[p[1]].ev < B[p[2]].ev /\ B[p[1]].ev >= B[p[2]].ev - range}
HInit(rs, m, g) == rows = rs /\ range = m /\ geo = g /\ pos = 0 /\ evs = <<>> /\ deltas = <<>> /\ tail = <<>> /\ err = FALSE
                   /\ corr = [a \in Axes |-> [c \in (0 .. g[a].n - 1) \X (0 .. g[a].n - 1) |-> 0]]
ReadOk(n) == /\ ~err /\ n \in 1 .. Len(rows) - pos /\ ChunkEnd(n)
             /\ Ordered(n) /\ \A k \in pos + 1 .. pos + n : Good(rows[k])
             /\ LET d == Distinct(pos + 1, pos + n)
                    B == Buf(n)
                    P == PairsOf(B, Len(tail) + 1)
                IN /\ evs' = evs \o d
                   /\ deltas' = deltas \o Diffs((IF evs = <<>> THEN <<>> ELSE <<LastEv>>) \o d)
                   /\ corr' = [a \in Axes |-> [c \in DOMAIN corr[a] |-> corr[a][c] + Cardinality({p \in P : B[p[1]].b[a] = c[1] /\ B[p[2]].b[a] = c[2]})]]
                   /\ tail' = SelectSeq(B, LAMBDA h : h.ev > d[Len(d)] - range)
             /\ pos' = pos + n /\ UNCHANGED <<rows, range, geo, err>>
Reject(n) == /\ ~err /\ n \in 1 .. Len(rows) - pos /\ ChunkEnd(n)
             /\ ~(Ordered(n) /\ \A k \in pos + 1 .. pos + n : Good(rows[k]))
             /\ err' = TRUE /\ UNCHANGED <<rows, range, geo, pos, evs, deltas, tail, corr>>
(* what the whole of the first m rows says *)
AllOrdered(m) == \A k \in 1 .. m : rows[k].ev >= (IF k = 1 THEN 0 ELSE rows[k - 1].ev)
AllGood(m) == AllOrdered(m) /\ \A k \in 1 .. m : Good(rows[k])
AllPairs(m) == {p \in (1 .. m) \X (1 .. m) : rows[p[1]].ev < rows[p[2]].ev /\ rows[p[2]].ev - rows[p[1]].ev <= range}
AllCorr(a, c, m) == Cardinality({p \in AllPairs(m) : BinOf(geo[a], rows[p[1]].q[a]) = c[1] /\ BinOf(geo[a], rows[p[2]].q[a]) = c[2]})
===============================================================================
