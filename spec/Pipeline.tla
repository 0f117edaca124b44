------------------------------- MODULE Pipeline -------------------------------
(* The whole chain (property C27): clusters of the DUTs -> merged table -> track        *)
(* candidates -> fitted tracks per DUT -> selected tracks -> numbers for residuals and  *)
(* efficiency. Every stage reads its input in chunks of whole events.                   *)
(* truth: sequence of tracks [ev, hits: DUTs with a hit], ordered by event; a cell of a *)
(* row is the number of the track the hit belongs to, 0: no hit                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT D                \* the DUTs
VARIABLES truth, conf,    \* conf[k] = [dut, fit, hits, min, excl, shit, snohit]: settings for the k-th DUT
          clusters,       \* per DUT: sequence of the tracks in the order of the file
          stage, pos,     \* present stage, last event done in it
          merged, cand, tracks, seltracks, count
pvars == <<truth, conf, clusters, stage, pos, merged, cand, tracks, seltracks, count>>
Stages == <<"merge", "find", "fit", "select", "count", "done">>
TEvents == {truth[k].ev : k \in DOMAIN truth}
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
-----------------------------------------------------------------------------
(* what is expected in the end, stated on the true tracks *)
Eff(c) == IF c.excl THEN c.fit \ {c.dut} ELSE c.fit
MinHits(c) == IF c.min = 0 THEN Cardinality(Eff(c)) ELSE c.min
IsFit(c, h) == c.hits \subseteq h /\ Cardinality(h \cap Eff(c)) >= MinHits(c)
IsSel(c, h) == IsFit(c, h) /\ c.shit \subseteq h /\ c.snohit \cap h = {}
FitTruth(c) == {k \in DOMAIN truth : IsFit(c, truth[k].hits)}
SelTruth(c) == {k \in DOMAIN truth : IsSel(c, truth[k].hits)}
FoundTruth(c) == {k \in SelTruth(c) : c.dut \in truth[k].hits}
-----------------------------------------------------------------------------
Row(k) == [d \in D |-> IF d \in truth[k].hits THEN k ELSE 0]
RowEv(r) == LET d == CHOOSE d \in D : r[d] # 0 IN truth[r[d]].ev
Chunk(lo, hi) == {e \in TEvents : lo < e /\ e <= hi}
RECURSIVE Concat(_, _)      \* f[e] over the events of a set, in ascending order
Concat(f, S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE a \in S : \A b \in S : a <= b IN f[e] \o Concat(f, S \ {e})
InEvent(s, e) == SelectSeq(s, LAMBDA k : truth[k].ev = e)
MergedRows(e) ==
  LET q == [d \in D |-> InEvent(clusters[d], e)]
      n == MaxOf({Len(q[d]) : d \in D})
  IN [i \in 1 .. n |-> [d \in D |-> IF i <= Len(q[d]) THEN q[d][i] ELSE 0]]
RowsOf(s, e) == SelectSeq(s, LAMBDA r : RowEv(r) = e)
HitsIn(s) == {x \in UNION {{s[i][d] : d \in D} : i \in DOMAIN s} : x # 0}
Perms(S) == {f \in [1 .. Cardinality(S) -> S] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]}
Present(r) == {d \in D : r[d] # 0}
PInit(tr, cf, cl) == truth = tr /\ conf = cf /\ clusters = cl /\ stage = 1 /\ pos = -1 /\ merged = <<>> /\ cand = <<>>
                     /\ tracks = [k \in DOMAIN cf |-> <<>>] /\ seltracks = tracks /\ count = [k \in DOMAIN cf |-> <<0, 0>>]
Last == MaxOf(TEvents)
Merge(e) == stage = 1 /\ merged' = merged \o Concat([x \in Chunk(pos, e) |-> MergedRows(x)], Chunk(pos, e))
            /\ UNCHANGED <<cand, tracks, seltracks, count>>
(* well separated tracks: the hits are regrouped to those of the tracks, in any order of the rows *)
Find(e) == /\ stage = 2
           /\ \E p \in [Chunk(pos, e) -> UNION {Perms(HitsIn(RowsOf(merged, x))) : x \in Chunk(pos, e)}] :
                /\ \A x \in Chunk(pos, e) : p[x] \in Perms(HitsIn(RowsOf(merged, x)))
                /\ cand' = cand \o Concat([x \in Chunk(pos, e) |-> [i \in DOMAIN p[x] |-> Row(p[x][i])]], Chunk(pos, e))
           /\ UNCHANGED <<merged, tracks, seltracks, count>>
ChunkOf(s, e) == SelectSeq(s, LAMBDA r : RowEv(r) \in Chunk(pos, e))
Fit(e) == /\ stage = 3
          /\ tracks' = [k \in DOMAIN conf |-> tracks[k] \o SelectSeq(ChunkOf(cand, e), LAMBDA r : IsFit(conf[k], Present(r)))]
          /\ UNCHANGED <<merged, cand, seltracks, count>>
Select(e) == /\ stage = 4
             /\ seltracks' = [k \in DOMAIN conf |-> seltracks[k] \o SelectSeq(ChunkOf(tracks[k], e), LAMBDA r : conf[k].shit \subseteq Present(r) /\ conf[k].snohit \cap Present(r) = {})]
             /\ UNCHANGED <<merged, cand, tracks, count>>
Counting(e) == /\ stage = 5
               /\ count' = [k \in DOMAIN conf |-> LET s == ChunkOf(seltracks[k], e) IN <<count[k][1] + Len(s), count[k][2] + Len(SelectSeq(s, LAMBDA r : r[conf[k].dut] # 0))>>]
               /\ UNCHANGED <<merged, cand, tracks, seltracks>>
Step(e) == /\ stage < 6 /\ e \in TEvents /\ e > pos
           /\ (Merge(e) \/ Find(e) \/ Fit(e) \/ Select(e) \/ Counting(e))
           /\ IF e = Last THEN stage' = stage + 1 /\ pos' = -1 ELSE stage' = stage /\ pos' = e
           /\ UNCHANGED <<truth, conf, clusters>>
-----------------------------------------------------------------------------
BagIs(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in DOMAIN s} = {Row(k) : k \in S}
EveryCluster == stage > 1 => \A d \in D : \A k \in DOMAIN truth : d \in truth[k].hits => Cardinality({i \in DOMAIN merged : merged[i][d] = k}) = 1
Candidates == stage > 2 => BagIs(cand, DOMAIN truth)
FittedAll == stage > 3 => \A k \in DOMAIN conf : BagIs(tracks[k], FitTruth(conf[k]))
SelectedAll == stage > 4 => \A k \in DOMAIN conf : BagIs(seltracks[k], SelTruth(conf[k]))
Counted == stage > 5 => \A k \in DOMAIN conf : count[k] = <<Cardinality(SelTruth(conf[k])), Cardinality(FoundTruth(conf[k]))>>
Sorted(s) == \A i, j \in DOMAIN s : i < j => RowEv(s[i]) <= RowEv(s[j])
Ordered == Sorted(merged) /\ Sorted(cand) /\ \A k \in DOMAIN conf : Sorted(tracks[k]) /\ Sorted(seltracks[k])
(* the denominator of the efficiency does not depend on the DUT's own hits *)
Unbiased == \A k \in DOMAIN conf : LET c == conf[k] IN c.excl /\ c.dut \notin c.hits \cup c.shit \cup c.snohit =>
             \A h \in SUBSET D : IsSel(c, h) = IsSel(c, h \cup {c.dut})
=============================================================================
