----------------------------- MODULE FindTracksMC -----------------------------
(* Straight tracks 1 .. K with intercept A and slope S (per plane), separated by more  *)
(* than four times their displacement between two planes; every track has a hit in the *)
(* first two planes.                                                                   *)
EXTENDS FindTracks, TLC, Json, IOUtils, SequencesExt
CONSTANTS K, P, Sep, Slopes, Sels, MissOn
SlopesDef == {-1, 0, 1}
SlopesFew == {-1, 1}
SelsAll == {1 .. P, {1, 2}, 2 .. P, {}}
SelsFew == {1 .. P, {}}
SelsExt == {1 .. P, {1, 2}}
MPos(t, h, e) == 12 * (t.a[h] + t.s[h] * (e - 1))
Perms == {f \in [1 .. K -> 1 .. K] : \A i, j \in 1 .. K : i # j => f[i] # f[j]}
Hidden == IF MissOn THEN SUBSET ((1 .. K) \X (3 .. P)) ELSE {{}}
MInit == \E f \in Perms : \E sl \in [1 .. K -> Slopes] : \E p \in [2 .. P -> Perms] : \E m \in Hidden : \E s \in Sels :
   FInit([a |-> [k \in 1 .. K |-> Sep * f[k]], s |-> sl], s,
         [q \in 1 .. K |-> [e \in 1 .. P |-> IF e = 1 THEN q ELSE IF <<p[e][q], e>> \in m THEN 0 ELSE p[e][q]]])
MSpec == MInit /\ [][FNext]_fvars
(* arbitrary hits: any positions, any holes; only the regrouping is demanded *)
CONSTANTS K2, P2, Coord
APos(t, h, e) == IF h = 0 THEN 0 ELSE 12 * t.p[e][h]
Positions == [1 .. P2 -> [1 .. K2 -> Coord]]
AInit == \E t \in Positions : \E m \in SUBSET ((1 .. K2) \X (1 .. P2)) : \E s \in Sels :
   FInit([p |-> t], s, [q \in 1 .. K2 |-> [e \in 1 .. P2 |-> IF <<q, e>> \in m THEN 0 ELSE q]])
ASpec == AInit /\ [][FNext]_fvars
LSpec == ASpec /\ WF_fvars(FNext)
Ends == <>FDone
=============================================================================
