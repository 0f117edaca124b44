---------------------------- MODULE PipelineTrace ----------------------------
(* Recordings of the whole chain for one selected DUT (T.own). Lengths in half pixels   *)
(* of the global axes. duts[d] = [m: local to global <<m11, m12, m21, m22>>, flip: the  *)
(* z axis is reversed, t: translation, n: columns, rows, z: number of the plane];        *)
(* truth[k] = [ev, a: position in plane 0, s: slope, hits: DUTs, cell[d] = <<charge,     *)
(* pixels>>]; conf: settings; cand, tabs (fitted), sel (selected): rows [ev, cells:      *)
(* <<x, y, charge, n>> per DUT (<<>>: none), flag, qual, off, slope (cand: without)];     *)
(* eff: refused for the lack of "tracks" or "hits", pix: <<column, row, tracks, with hit>>,  *)
(* sum: of all; res: <<entries *)
(* of the residuals in x, y, of these in bins that touch 0>>                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Rng(s) == {s[i] : i \in DOMAIN s}
Eff == LET f == Rng(T.conf.fit) IN IF T.conf.excl THEN f \ {T.conf.dut} ELSE f
MinHits == IF T.conf.min = 0 THEN Cardinality(Eff) ELSE T.conf.min
Hits(k) == Rng(T.truth[k].hits)
IsFit(k) == Rng(T.conf.hits) \subseteq Hits(k) /\ Cardinality(Hits(k) \cap Eff) >= MinHits
IsSel(k) == IsFit(k) /\ Rng(T.conf.shit) \subseteq Hits(k) /\ Rng(T.conf.snohit) \cap Hits(k) = {}
Global(k, d) == [q \in {1, 2} |-> T.truth[k].a[q] + T.truth[k].s[q] * T.duts[d].z]
(* the transposed orientation *)
Turn(d, v) == LET m == T.duts[d].m IN <<m[1] * v[1] + m[3] * v[2], m[2] * v[1] + m[4] * v[2]>>
Local(k, d) == LET g == Global(k, d) IN Turn(d, <<g[1] - T.duts[d].t[1], g[2] - T.duts[d].t[2]>>)
Slope(k, d) == LET v == Turn(d, T.truth[k].s) IN IF T.duts[d].flip = 1 THEN <<-v[1], -v[2]>> ELSE v
Pixel(k, d) == LET l == Local(k, d) IN <<(l[1] + T.duts[d].n[1] + 1) \div 2, (l[2] + T.duts[d].n[2] + 1) \div 2>>
Cells(k) == [d \in DOMAIN T.duts |-> IF d \in Hits(k) THEN Local(k, d) \o T.truth[k].cell[d] ELSE <<>>]
Bits(k) == [d \in DOMAIN T.duts |-> IF d \in Hits(k) THEN 1 ELSE 0]
Cand(k) == [ev |-> T.truth[k].ev, cells |-> Cells(k), flag |-> Bits(k)]
Own == T.conf.dut
Full(k) == [ev |-> T.truth[k].ev, cells |-> Cells(k), flag |-> Bits(k), qual |-> IF Own \in Hits(k) THEN 1 ELSE 0, off |-> Local(k, Own), slope |-> Slope(k, Own)]
Same(rows, S, F(_)) == Len(rows) = Cardinality(S) /\ Rng(rows) = {F(k) : k \in S}
Sorted(rows) == \A i \in 1 .. Len(rows) - 1 : rows[i].ev <= rows[i + 1].ev
Noise == Len(T.noise)
(* the tracks of an event are well separated in every plane and inside of the DUTs that they hit *)
Separate == \A j, k \in DOMAIN T.truth : j # k /\ T.truth[j].ev = T.truth[k].ev => \A d \in DOMAIN T.duts :
              \E q \in {1, 2} : Global(j, d)[q] - Global(k, d)[q] >= 2 * T.sep \/ Global(k, d)[q] - Global(j, d)[q] >= 2 * T.sep
Inside == \A k \in DOMAIN T.truth : \A d \in Hits(k) : \A q \in {1, 2} : Pixel(k, d)[q] \in 1 .. T.duts[d].n[q]
Fails ==
  IF T.exc # "" THEN {"the chain failed"}
  ELSE IF ~(Separate /\ Inside) THEN {"BAD CASE"}
  ELSE LET All == DOMAIN T.truth
           FS == {k \in All : IsFit(k)}
           SS == {k \in All : IsSel(k)}
           IA == {k \in SS : \A q \in {1, 2} : Pixel(k, Own)[q] \in 1 .. T.duts[Own].n[q]}
           PT == {Pixel(k, Own) : k \in IA}
           WithHit == {k \in IA : Own \in Hits(k)}
           Found == {k \in SS : Own \in Hits(k)}
       IN UNION {
  IF Len(T.cand) - Noise = Cardinality(All) /\ Rng(T.cand) = {Cand(k) : k \in All} \cup Rng(T.noise) THEN {} ELSE {"the track candidates are not those of the true tracks"},
  IF Sorted(T.cand) /\ Sorted(T.tabs) /\ Sorted(T.sel) THEN {} ELSE {"the order of the events"},
  IF Same(T.tabs, FS, Full) THEN {} ELSE {"the fitted tracks are not the true tracks with enough hits"},
  IF Same(T.sel, SS, Full) THEN {} ELSE {"the selected tracks are not the true tracks that fulfil the selection"},
  IF T.eff = "tracks" THEN (IF IA # {} THEN {"no efficiency"} ELSE {})
  ELSE IF T.eff = "hits" THEN (IF WithHit # {} \/ IA = {} THEN {"no hits"} ELSE {})
  ELSE UNION {
    IF Rng(T.pix) = {<<p[1], p[2], Cardinality({k \in IA : Pixel(k, Own) = p}), Cardinality({k \in WithHit : Pixel(k, Own) = p})>> : p \in PT} THEN {} ELSE {"the efficiency does not count the true tracks and hits"},
    IF T.sum = <<Cardinality(WithHit), Cardinality(IA)>> THEN {} ELSE {"mean efficiency"}},
  IF Found = {} \/ T.res = <<>> \/ T.res = <<Cardinality(Found), Cardinality(Found), Cardinality(Found), Cardinality(Found)>> THEN {} ELSE {"the residuals are not one entry at zero per hit on a track"},
  IF T.res = <<>> /\ Found # {} /\ T.wantres = 1 THEN {"no residuals"} ELSE {}}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
