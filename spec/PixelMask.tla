------------------------------- MODULE PixelMask -------------------------------
(* Masking of noisy pixels (property C04).                                            *)
(* A pixel is a number 1 .. w * h (column-major: (c - 1) * h + r). The hit counts are *)
(* squares of the numbers in Roots, so that the normalisation by the square root of   *)
(* the count is exact in integers (all divide L).                                     *)
(* Phase "count": the hits of the file are counted chunk by chunk;                    *)
(* phase "mask": one action per iteration of the background estimate.                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANT L
VARIABLES cfg,    \* [w, h, fc, fr: filter size; tn/td: threshold; it: iterations, 0: unlimited; chunk]
          hits,   \* sequence of pixels
          pos,    \* hits already counted
          occ,    \* occupancy
          mask,   \* set of masked pixels
          work,   \* occupancy with the masked pixels replaced by the background
          i, phase
pvars == <<cfg, hits, pos, occ, mask, work, i, phase>>
Lesser(a, b) == IF a < b THEN a ELSE b
N == cfg.w * cfg.h
Col(p) == (p - 1) \div cfg.h
Row(p) == (p - 1) % cfg.h
(* the filter window: rank size \div 2 (from 0) of the sorted values, 0 outside of the matrix *)
Window(p) == LET c0 == Col(p) - cfg.fc \div 2 r0 == Row(p) - cfg.fr \div 2 IN
             {<<c, r>> \in (c0 .. c0 + cfg.fc - 1) \X (r0 .. r0 + cfg.fr - 1) : TRUE}
Inside(x) == x[1] >= 0 /\ x[1] < cfg.w /\ x[2] >= 0 /\ x[2] < cfg.h
At(w, x) == IF Inside(x) THEN w[x[1] * cfg.h + x[2] + 1] ELSE 0
Median(w, p) == LET S == Window(p) k == (cfg.fc * cfg.fr) \div 2 IN
                CHOOSE v \in {At(w, x) : x \in S} :
                  /\ Cardinality({x \in S : At(w, x) < v}) <= k
                  /\ Cardinality({x \in S : At(w, x) <= v}) > k
Background(w) == [p \in 1 .. N |-> Median(w, p)]
Roots == {r \in 1 .. L : L % r = 0}
Root(v) == CHOOSE r \in Roots : r * r = v
(* difference to the background normalised to the square root of the count, times L *)
Noisy(w, bg) ==
  LET P == {p \in 1 .. N : w[p] # 0}
      R == [p \in P |-> ((w[p] - bg[p]) * L) \div Root(w[p])]
      n == Cardinality(P)
      s1 == MapThenSumSet(LAMBDA p : R[p], P)
      s2 == MapThenSumSet(LAMBDA p : R[p] * R[p], P)
      V == n * s2 - s1 * s1   \* n^2 times the variance
  IN {p \in P : R[p] > 0 /\ cfg.td * cfg.td * n * n * R[p] * R[p] > cfg.tn * cfg.tn * V}
(* exactly at the threshold: rounding decides *)
Tie(w, bg) ==
  LET P == {p \in 1 .. N : w[p] # 0}
      R == [p \in P |-> ((w[p] - bg[p]) * L) \div Root(w[p])]
      n == Cardinality(P)
      s1 == MapThenSumSet(LAMBDA p : R[p], P)
      s2 == MapThenSumSet(LAMBDA p : R[p] * R[p], P)
      V == n * s2 - s1 * s1
  IN V # 0 /\ \E p \in P : R[p] > 0 /\ cfg.td * cfg.td * n * n * R[p] * R[p] = cfg.tn * cfg.tn * V
PInit(c, hs) == /\ cfg = c /\ hits = hs /\ pos = 0 /\ occ = [p \in 1 .. c.w * c.h |-> 0] /\ mask = {}
                /\ work = <<>> /\ i = 0 /\ phase = "count"
CountChunk == /\ phase = "count" /\ pos < Len(hits)
              /\ LET e == Lesser(pos + cfg.chunk, Len(hits)) IN
                 /\ occ' = [p \in 1 .. N |-> occ[p] + Cardinality({k \in pos + 1 .. e : hits[k] = p})]
                 /\ pos' = e
              /\ UNCHANGED <<cfg, hits, mask, work, i, phase>>
StartMask == /\ phase = "count" /\ pos = Len(hits) /\ phase' = "mask" /\ work' = occ
             /\ UNCHANGED <<cfg, hits, pos, occ, mask, i>>
Iterate == /\ phase = "mask"
           /\ LET bg == Background(work) new == Noisy(work, bg) IN
              /\ mask' = mask \cup new
              /\ work' = [p \in 1 .. N |-> IF p \in mask \cup new THEN bg[p] ELSE work[p]]
              /\ phase' = IF new \subseteq mask \/ (cfg.it # 0 /\ i + 1 >= cfg.it) THEN "done" ELSE "mask"
           /\ i' = i + 1
           /\ UNCHANGED <<cfg, hits, pos, occ>>
PNext == CountChunk \/ StartMask \/ Iterate
-----------------------------------------------------------------------------
EachOnce == MapThenSumSet(LAMBDA p : occ[p], 1 .. N) = pos /\ \A p \in 1 .. N : occ[p] = Cardinality({k \in 1 .. pos : hits[k] = p})
NoDead == \A p \in mask : occ[p] # 0
Bounded == i <= N + 1 /\ (cfg.it # 0 => i <= cfg.it)
(* a flat occupancy is never masked away from the border *)
FlatQuiet == (phase = "done" /\ cfg.fc = 1 /\ cfg.fr = 1) => mask = {}
PInv == EachOnce /\ NoDead /\ Bounded /\ FlatQuiet
=============================================================================
