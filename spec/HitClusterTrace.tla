--------------------------- MODULE HitClusterTrace ---------------------------
(* kind "event": the hits of one event with the outcome for them; the machine runs    *)
(* over the hits, then the outcome is compared.  kind "table": whole tables.          *)
EXTENDS HitCluster, TLC, Json, IOUtils, FiniteSetsExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
SetOf(s) == {s[k] : k \in DOMAIN s}
Cfg(t) == [dc |-> t.cfg.dc, dr |-> t.cfg.dr, df |-> t.cfg.df, qmin |-> t.cfg.qmin, qmax |-> t.cfg.qmax, dis |-> SetOf(t.cfg.dis), noi |-> SetOf(t.cfg.noi)]
Load(t) == hits' = t.hits /\ cfg' = Cfg(t) /\ used' = {} /\ cur' = {} /\ clusters' = <<>>
TInit == HInit(Traces[1].hits, Cfg(Traces[1])) /\ c = 1
NextCase == c' = c + 1 /\ IF c < Len(Traces) THEN Load(Traces[c + 1]) ELSE UNCHANGED hvars
-----------------------------------------------------------------------------
SumF(S, F(_)) == MapThenSumSet(F, S)
Bit(i, n) == (i \div n) % 2
(* bit-interleaved (Morton) number of a pixel of the 8 x 8 box *)
Morton(x, y) == Bit(x, 1) + 2 * Bit(y, 1) + 4 * Bit(x, 2) + 8 * Bit(y, 2) + 16 * Bit(x, 4) + 32 * Bit(y, 4)
MinC(S) == MinOf({hits[k].c : k \in S})
MinR(S) == MinOf({hits[k].r : k \in S})
Cells(S) == {<<hits[k].c - MinC(S), hits[k].r - MinR(S)>> : k \in S}
NoShape(S) == T.pos \/ (\E p \in Cells(S) : p[1] > 7 \/ p[2] > 7) \/ <<7, 7>> \in Cells(S)
ShapeOk(S, x) == IF NoShape(S) THEN x = <<-1>> ELSE SetOf(x) = {Morton(p[1], p[2]) : p \in Cells(S)}
Near1(m, num, den) == Abs(m * den - num * 1000) <= den + 2
Weight(k) == IF T.weighted THEN hits[k].q + T.corr ELSE 1
MeanOk(S, m, Pos(_)) == LET den == SumF(S, Weight) num == SumF(S, LAMBDA k : Weight(k) * Pos(k)) IN Near1(m, num, den)
MaxQ(S) == {k \in S : \A l \in S : hits[l].q <= hits[k].q}
ErrOk(e, s) == Abs(12 * e * e - (s * T.escale) * (s * T.escale)) <= 12 * e + 12
IdSet(n) == {k \in DOMAIN hits : T.ids[k] = n}
Parts == {IdSet(T.cl[n].id) : n \in DOMAIN T.cl}
Of(n) == IdSet(T.cl[n].id)
EventFails ==
  (IF \E k, l \in DOMAIN T.cl : k # l /\ T.cl[k].id = T.cl[l].id THEN {"two clusters of an event have the same number"} ELSE {})
  \cup (IF Parts # {clusters[n] : n \in DOMAIN clusters} \/ Len(T.cl) # Len(clusters) THEN {"the clusters are not the groups of linked hits"}
   ELSE (IF \E k \in DOMAIN hits \ Members : T.ids[k] >= 0 \/ T.seeds[k] # 0 THEN {"a masked hit is assigned to a cluster"} ELSE {})
   \cup (IF \E k \in DOMAIN hits : T.ncl[k] # Len(clusters) THEN {"number of clusters of the event stored with the hits"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : T.cl[n].ncl # Len(clusters) THEN {"number of clusters of the event stored with the clusters"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : T.cl[n].n # Cardinality(Of(n)) \/ \E k \in Of(n) : T.sizes[k] # Cardinality(Of(n)) THEN {"number of hits of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : T.cl[n].q # SumF(Of(n), LAMBDA k : hits[k].q) THEN {"charge of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : T.cl[n].f # MinOf({hits[k].f : k \in Of(n)}) THEN {"frame of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : ~MeanOk(Of(n), T.cl[n].mc, LAMBDA k : hits[k].c) \/ ~MeanOk(Of(n), T.cl[n].mr, LAMBDA k : hits[k].r) THEN {"mean position of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : LET S == {k \in Of(n) : T.seeds[k] = 1} IN
            Cardinality(S) # 1 \/ \E k \in S : k \notin MaxQ(Of(n)) \/ <<T.cl[n].sc, T.cl[n].sr>> # <<hits[k].c, hits[k].r>> THEN {"seed of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : ~ShapeOk(Of(n), T.cl[n].shape) THEN {"shape of a cluster"} ELSE {})
   \cup (IF \E n \in DOMAIN T.cl : ~ErrOk(T.cl[n].ec, T.cs) \/ ~ErrOk(T.cl[n].er, T.rs) THEN {"position error of a cluster"} ELSE {}))
CountOf(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
TableFails ==
  IF T.exc # "" THEN {"clustering failed"} ELSE
  (IF T.outrows # T.inrows THEN {"the stored hits are not the input hits"} ELSE {})
  \cup (IF \E k \in 1 .. Len(T.clev) - 1 : T.clev[k] > T.clev[k + 1] THEN {"clusters are not ordered by event"} ELSE {})
  \cup (IF ~(SetOf(T.clev) \subseteq SetOf([k \in DOMAIN T.inrows |-> T.inrows[k][1]])) THEN {"cluster of an event without hits"} ELSE {})
  \cup (IF \E n \in 1 .. Len(T.sizehist) : T.sizehist[n] # CountOf(T.ns, n - 1) THEN {"histogram of cluster sizes"} ELSE {})
  \cup (IF \E k \in DOMAIN T.ns : T.ns[k] >= Len(T.sizehist) THEN {"histogram of cluster sizes is too short"} ELSE {})
  \cup (IF \E k \in DOMAIN T.shapehist : T.shapehist[k][1] < 65534 /\ T.shapehist[k][2] # CountOf(T.shapes, T.shapehist[k][1]) THEN {"histogram of cluster shapes"} ELSE {})
  \cup (IF \E k \in DOMAIN T.shapes : T.shapes[k] \in 0 .. 65533 /\ \A m \in DOMAIN T.shapehist : T.shapehist[m][1] # T.shapes[k] THEN {"histogram of cluster shapes misses a shape"} ELSE {})
  \cup (IF SetOf(T.mdis) # SetOf(T.odis) \/ SetOf(T.mnoi) # SetOf(T.onoi) THEN {"pixel masks are not stored with the clusters"} ELSE {})
TNext == /\ c <= Len(Traces)
         /\ IF T.kind = "event" /\ ~HDone THEN HNext /\ c' = c
            ELSE (\A f \in (IF T.kind = "event" THEN EventFails ELSE TableFails) : PrintT(<<"BAD", T.id, f>>)) /\ NextCase
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED hvars
TSpec == TInit /\ [][TNext \/ TFinal]_<<hvars, c>>
=============================================================================
