--------------------------- MODULE TrackFlagsTrace ---------------------------
(* Recordings of fit_tracks through hits of exact lines (C11). rows[r]: ev, line =        *)
(* <<ax, ay, sx, sy>> (position at plane p: a + s * z[p], global), hits[p] = <<x, y>>     *)
(* local or <<>>; tr[p] = <<x, y>>; pitch[p] (doubled, um); qual/iso[p]: doubled distances *)
(* (qual <<>>: infinite); lim[p] = <<xlo, xhi, ylo, yhi>> doubled, or <<>>;                *)
(* conf[k]: eff (fit DUTs), hits, min; tables[k]: rows with ev, quality, track, hit (bits). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
F == INSTANCE TrackFlags WITH pts <- <<>>, dist <- <<>>, ell <- FALSE, i <- 0, j <- 0, mark <- <<>>, cmp <- {}
ToSet(s) == {s[k] : k \in DOMAIN s}
R == DOMAIN T.rows
P == DOMAIN T.tr
HasHit(r, p) == T.rows[r].hits[p] # <<>>
NFit(k, r) == Cardinality({p \in ToSet(T.conf[k].eff) : HasHit(r, p)})
Fitted(k, r) == NFit(k, r) >= 2
Stored(k, r) == Fitted(k, r) /\ NFit(k, r) >= T.conf[k].min /\ \A p \in ToSet(T.conf[k].hits) : HasHit(r, p)
Loc(r, p) == LET l == T.rows[r].line IN <<l[1] + l[3] * T.z[p] - T.tr[p][1], l[2] + l[4] * T.z[p] - T.tr[p][2]>>
(* ellipse is used for distances that are not small compared to the pixels *)
Ell(p) == T.qual[p] = <<>> \/ \A a \in {1, 2} : 2 * T.qual[p][a] >= 5 * T.pitch[p][a]
InLimits(h, L) == L = <<>> \/ (2 * h[1] >= L[1] /\ 2 * h[1] <= L[2] /\ 2 * h[2] >= L[3] /\ 2 * h[2] <= L[4])
Quality(r, p) == HasHit(r, p) /\ LET h == T.rows[r].hits[p] l == Loc(r, p) IN
   InLimits(h, T.lim[p]) /\ F!Within(h[1] - l[1], h[2] - l[2], T.qual[p], Ell(p))
IsoHit(r, p) == F!Isolated([q \in R |-> <<T.rows[q].ev>> \o T.rows[q].hits[p]], r, T.iso[p], Ell(p))
IsoTrack(k, r, p) == F!Isolated([q \in R |-> <<T.rows[q].ev>> \o (IF Fitted(k, q) THEN Loc(q, p) ELSE <<>>)], r, T.iso[p], TRUE)
B(x) == IF x THEN 1 ELSE 0
RowFails(k, r, o) ==
  UNION {
   IF o.ev # T.rows[r].ev THEN {"rows of the table"} ELSE {},
   IF \E p \in P : o.quality[p] # B(Quality(r, p)) THEN {"quality flag"} ELSE {},
   IF \E p \in P : o.track[p] # B(IsoTrack(k, r, p)) THEN {"isolated track flag"} ELSE {},
   IF \E p \in P : o.hit[p] # B(IsoHit(r, p)) THEN {"isolated hit flag"} ELSE {}}
RECURSIVE Kept(_, _)
Kept(k, r) == IF r > Len(T.rows) THEN <<>> ELSE (IF Stored(k, r) THEN <<r>> ELSE <<>>) \o Kept(k, r + 1)
TabFails(k) ==
  LET E == Kept(k, 1) t == T.tables[k] IN
  IF Len(t) # Len(E) THEN {"number of stored tracks"} ELSE UNION {RowFails(k, E[q], t[q]) : q \in DOMAIN E}
Fails ==
  IF T.exc # "" THEN {"fitting failed"}
  ELSE (IF T.same # 1 THEN {"the flags depend on the chunk size"} ELSE {})
    \cup UNION {TabFails(k) : k \in DOMAIN T.conf}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
