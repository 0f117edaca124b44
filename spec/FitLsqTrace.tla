------------------------------ MODULE FitLsqTrace ------------------------------
(* Recordings of tracks fitted through scattered hits of planes perpendicular to the    *)
(* beam (rotated about it by gamma = <<c, s, d>>): least squares line and chi2 (C10).     *)
(* hits[k][p] = <<u, v>> local (1/10 um) or <<>>; z (pitch units); fit: planes used;      *)
(* tracks[k]: off[p] local (1/10 um), slope[p] = local <<x, y>> (1/10 um per pitch),       *)
(* chi: chi2 * 6400 (errors of 8 um), red: chi2 per degree of freedom, same scale.         *)
EXTENDS Lsq, Geometry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
One == <<1, 0, 1>>
Rot(p) == <<One, One, T.gamma[p]>>
Glob(p, u) == ToGlobal(Rot(p), <<T.tr[p][1], T.tr[p][2], 0>>, <<u[1], u[2], 0>>)
Use(k) == {p \in DOMAIN T.z : T.hits[k][p] # <<>> /\ \E q \in DOMAIN T.fit : T.fit[q] = p}
TrackFails(k) ==
  LET t == T.tracks[k] U == Use(k) IN
  IF t.ok = 0 THEN {"the track was not fitted"}
  ELSE LET G == [p \in U |-> Glob(p, T.hits[k][p])]
           Res(p, a) == T.hits[k][p][a] - t.off[p][a]
           chi == MapThenSumSet(LAMBDA p : Res(p, 1) * Res(p, 1) + Res(p, 2) * Res(p, 2), U)
           slack == chi \div 100 + 2 * MapThenSumSet(LAMBDA p : AbsI(Res(p, 1)) + AbsI(Res(p, 2)) + 1, U)
       IN UNION {
        IF \E p \in DOMAIN T.z : \E a \in {1, 2} : ~OnLsq(U, T.z, [q \in U |-> G[q][a]], T.z[p], Glob(p, t.off[p])[a], T.tol)
        THEN {"the track is not the least squares line of its hits"} ELSE {},
        IF \E p \in DOMAIN T.z : LET s == Rotate(Rot(p), <<t.slope[p][1], t.slope[p][2], 0>>) IN
            \E a \in {1, 2} : ~SlopeOk(U, T.z, [q \in U |-> G[q][a]], s[a], T.tol) THEN {"slope"} ELSE {},
        IF T.chi = 1 /\ AbsI(t.chi - chi) > slack THEN {"chi2 is not the normalized sum of squared residuals"} ELSE {},
        IF T.chi = 1 /\ Cardinality(U) > 2 /\ AbsI(2 * (Cardinality(U) - 2) * t.red - chi) > slack + 20 THEN {"chi2 per degree of freedom"} ELSE {}}
Fails ==
  IF T.exc # "" THEN {"fitting failed"}
  ELSE (IF T.ins # 1 THEN {"a hit that is not used in the fit changes the track"} ELSE {})
    \cup (IF T.same # 1 THEN {"the result depends on the order of the planes or the placement of the whole telescope"} ELSE {})
    \cup (IF T.cov # 1 THEN {"the result depends on the other tracks"} ELSE {})
    \cup UNION {TrackFails(k) : k \in DOMAIN T.tracks}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
