---------------------------- MODULE FitSelectTrace ----------------------------
(* Recordings of fit_tracks on untilted planes (C09).                                  *)
(* conf: as in FitSelect (DUTs counted from 1, fit/hits/own as lists); rows: [ev, hits];*)
(* z: positions of the planes (pitch units), tr: translations <<x, y>> (1/10 um),        *)
(* cells[r][d]: columns of the input; tables[k]: result for conf[k]: rows with           *)
(* ev, flag (bits), cells, fitted (0/1), off[d] = <<x, y>> intersections with all planes  *)
(* (local, 1/10 um), own = <<x, y, z>>, slope = <<x, y>> (1/10 um per pitch), szpos.       *)
EXTENDS Lsq, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
ToSet(s) == {s[k] : k \in DOMAIN s}
Conf == [k \in DOMAIN T.conf |-> [dut |-> T.conf[k].dut, fit |-> ToSet(T.conf[k].fit), hits |-> ToSet(T.conf[k].hits), min |-> T.conf[k].min, excl |-> T.conf[k].excl = 1]]
Rows == [r \in DOMAIN T.rows |-> <<T.rows[r][1], ToSet(T.rows[r][2])>>]
S == INSTANCE FitSelect WITH rows <- Rows, conf <- Conf, need <- T.need, g <- 0, pos <- 0, fitted <- {}, out <- <<>>, used <- <<>>, err <- FALSE
MustFail == \E k \in DOMAIN Conf : ~S!Valid(Conf[k])
(* rows to be stored: all if the data is kept *)
AllRows == [r \in DOMAIN Rows |-> r]
Expected(k) == IF T.keep = 1 THEN AllRows ELSE S!Kept(Conf[k], 1, Len(Rows))
(* hit of DUT p in row r in global coordinates, axis a *)
Hit(r, p, a) == T.cells[r][p][a] + T.tr[p][a]
UsedIn(k, r) == S!Eff(Conf[k]) \cap Rows[r][2]
LineOk(k, r, o) ==
  LET U == UsedIn(k, r) IN
  \A a \in {1, 2} :
    LET X == [p \in U |-> Hit(r, p, a)] IN
    /\ SlopeOk(U, T.z, X, o.slope[a], 2)
    /\ \A p \in DOMAIN T.z : OnLsq(U, T.z, X, T.z[p], o.off[p][a] + T.tr[p][a], 3)
    /\ o.own[a] = o.off[Conf[k].dut][a]
RowFails(k, r, o) ==
  UNION {
   IF o.ev # Rows[r][1] THEN {"event number of a stored track"} ELSE {},
   IF {p \in DOMAIN o.flag : o.flag[p] = 1} # Rows[r][2] THEN {"hit flag of a stored track"} ELSE {},
   IF o.cells # T.cells[r] THEN {"hit data of a stored track"} ELSE {},
   IF o.fitted # (IF S!Fitted(Conf[k], Rows[r], T.need) THEN 1 ELSE 0) THEN {"track is fitted or not"} ELSE {},
   IF o.fitted = 1 /\ T.kal = 0 /\ ~LineOk(k, r, o) THEN {"the track is not the line through the hits of the fit DUTs"} ELSE {},
   IF o.fitted = 1 /\ (o.own[3] # 0 \/ o.szpos # 1) THEN {"z of the track"} ELSE {}}
TabFails(k) ==
  LET E == Expected(k) t == T.tables[k] IN
  IF t.present = 0 THEN (IF E = <<>> \/ (T.keep = 0 /\ E = <<>>) THEN {} ELSE {"no tracks stored"})
  ELSE IF Len(t.rows) # Len(E) THEN {"number of stored tracks"}
  ELSE UNION {RowFails(k, E[q], t.rows[q]) : q \in DOMAIN E}
Fails ==
  IF MustFail THEN (IF T.exc = "" THEN {"invalid settings were accepted"} ELSE {})
  ELSE IF T.exc # "" THEN {"fitting failed"}
  ELSE (IF T.same # 1 THEN {"the result depends on the chunk size"} ELSE {})
    \cup (IF T.alone # 1 THEN {"the tracks of a DUT depend on the other selected DUTs"} ELSE {})
    \cup (IF T.extra # 0 THEN {"tracks of a DUT that was not selected"} ELSE {})
    \cup UNION {TabFails(k) : k \in DOMAIN T.tables}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
