---------------------------- MODULE EventMergeTrace ----------------------------
(* Recordings: in (event numbers per DUT), att[d][k]: attributes of cluster k of DUT *)
(* d as a sequence of integers with the first two being x and y (local position in    *)
(* 1/8 um or, for DUTs with index = 1, column and row in units of 1/4 index) and       *)
(* number three and four their errors; geo[d] = [index, cs, rs, nc, nr];               *)
(* out: sequence of [ev, flag, cells] as read from the merged table.                   *)
EXTENDS EventMerge, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
TInit == GInit(Traces[1].in) /\ c = 1
NextCase == /\ c' = c + 1 /\ IF c < Len(Traces)
              THEN /\ in' = Traces[c + 1].in /\ pos' = [d \in DOMAIN Traces[c + 1].in |-> 0] /\ rows' = <<>>
              ELSE UNCHANGED gvars
(* pixel centre of index i (first pixel: 1) in a matrix of n pixels of size s is       *)
(* s * (i - 1/2 - n/2) from the centre of the sensor; i given in 1/4, result in 1/8    *)
Centre8(i4, s, n) == s * (2 * i4 - 4 - 4 * n)
Cell(d, k) == LET a == T.att[d][k] g == T.geo[d] IN
  [m \in DOMAIN a |-> IF g.index = 0 THEN a[m]
                      ELSE IF m = 1 THEN Centre8(a[1], g.cs, g.nc)
                      ELSE IF m = 2 THEN Centre8(a[2], g.rs, g.nr)
                      ELSE IF m = 3 THEN a[3] * g.cs
                      ELSE IF m = 4 THEN a[4] * g.rs ELSE a[m]]
Fails ==
  IF T.exc # "" THEN {"merging failed"}
  ELSE (IF Len(T.out) # Len(rows) THEN {"number of rows of the merged table"} ELSE {})
  \cup (IF \E k \in DOMAIN rows \cap DOMAIN T.out : T.out[k].ev # rows[k].ev THEN {"event numbers of the merged table"} ELSE {})
  \cup (IF \E k \in DOMAIN rows \cap DOMAIN T.out : \E d \in Duts : rows[k].cl[d] = 0 /\ T.out[k].cells[d] # T.missing
        THEN {"a DUT without further cluster in the event is not marked as missing"} ELSE {})
  \cup (IF \E k \in DOMAIN rows \cap DOMAIN T.out : \E d \in Duts : rows[k].cl[d] # 0 /\ T.out[k].cells[d] # Cell(d, rows[k].cl[d])
        THEN {"a cluster is missing, moved or changed"} ELSE {})
  \cup (IF \E k \in DOMAIN rows \cap DOMAIN T.out : T.out[k].flag # HitFlag(rows[k]) THEN {"hit flags of the merged table"} ELSE {})
TNext == /\ c <= Len(Traces)
         /\ IF Open # {} THEN MergeEvent /\ c' = c
            ELSE (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ NextCase
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED gvars
TSpec == TInit /\ [][TNext \/ TFinal]_<<gvars, c>>
=============================================================================
