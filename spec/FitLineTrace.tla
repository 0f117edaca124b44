----------------------------- MODULE FitLineTrace -----------------------------
(* Recordings of tracks fitted through hits of straight lines (C10, C12).              *)
(* rot, tr: placement of the planes (translations in 1/10 um); lines[k] = <<ax, ay, sx, sy>>  *)
(* (um at z = 0, um per mm); tracks[k]: result for line k: off[p] = local intersection   *)
(* <<u, v, w>> (1/10 um), dir[p]: local direction (1e-4), own, owndir (same for the table's *)
(* own plane), chi (1e-3), ok: 1 if the track was found; exact: 0 if the hits scatter.                                 *)
EXTENDS Geometry, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Abs(a) == IF a < 0 THEN -a ELSE a
OnLine(g, l) == \A a \in {1, 2} : Abs(g[a] - 10 * l[a] - DivR(l[a + 2] * g[3], 1000)) <= T.tol
Along(g, l) == g[3] # 0 /\ \A a \in {1, 2} : Abs(1000 * g[a] - l[a + 2] * g[3]) <= 4000 + 1000 * (T.tol \div 10)
PlaneFails(l, p, off, dir) ==
  UNION {
   IF Abs(off[3]) > 1 THEN {"the intersection is not in the plane"} ELSE {},
   IF ~OnLine(ToGlobal(T.rot[p], T.tr[p], off), l) THEN {"the intersection is not on the line"} ELSE {},
   IF ~Along(Rotate(T.rot[p], dir), l) THEN {"the slope is not that of the line"} ELSE {},
   IF dir[3] <= 0 THEN {"the slope does not point along the beam"} ELSE {},
   IF T.unit = 1 /\ Abs(dir[1] * dir[1] + dir[2] * dir[2] + dir[3] * dir[3] - 100000000) > 100000 THEN {"the slope is not normalized"} ELSE {}}
TrackFails(k) ==
  LET l == T.lines[k] t == T.tracks[k] IN
  IF t.ok = 0 THEN {"the track was not fitted"}
  ELSE UNION {PlaneFails(l, p, t.off[p], t.dir[p]) : p \in DOMAIN T.tr}
       \cup PlaneFails(l, T.own, t.own, t.owndir)
       \cup (IF Abs(t.chi) > 10 THEN {"chi2 is not zero"} ELSE {})
Fails ==
  IF T.exc # "" THEN {"fitting failed"}
  ELSE (IF T.ins # 1 THEN {"a hit that is not used in the fit changes the track"} ELSE {})
    \cup (IF T.same # 1 THEN {"the result depends on the order of the planes or the placement of the whole telescope"} ELSE {})
    \cup (IF T.cov # 1 THEN {"the result depends on the other tracks"} ELSE {})
    \cup UNION {IF T.exact = 1 THEN TrackFails(k) ELSE IF T.tracks[k].ok = 0 THEN {"the track was not fitted"} ELSE {} : k \in DOMAIN T.tracks}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
