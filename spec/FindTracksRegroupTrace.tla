------------------------ MODULE FindTracksRegroupTrace ------------------------
(* Recordings of one event: in, out: rows of cells per DUT (a cell: all attributes of  *)
(* a hit as integers, first the x position, Missing: no hit), oev: event numbers of the *)
(* rows of the output, flags: bits of the hit flag, same: equal for all chunk sizes.    *)
(* Every output has to be reachable by exchanges of rows within a DUT (the actions of   *)
(* FindTracks, whatever the positions): Regrouped is the invariant that characterises it.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Missing == -999999
Mult(X, e, h) == Cardinality({q \in DOMAIN X : X[q][e] = h})
Regrouped(X, Y) == \A e \in 1 .. T.nd : \A q \in DOMAIN X : Mult(X, e, X[q][e]) = Mult(Y, e, X[q][e])
Fails ==
  IF T.exc # "" THEN {"track finding failed"}
  ELSE IF Len(T.out) # Len(T.in) THEN {"rows of the event are lost or added"}
  ELSE (IF \E k \in DOMAIN T.oev : T.oev[k] # T.ev THEN {"event numbers of the rows"} ELSE {})
  \cup (IF ~Regrouped(T.in, T.out) THEN {"a hit is lost, duplicated, changed or torn apart"} ELSE {})
  \cup (IF \E k \in DOMAIN T.out : \E e \in 1 .. T.nd : T.flags[k][e] # (IF T.out[k][e][1] = Missing THEN 0 ELSE 1) THEN {"hit flags"} ELSE {})
  \cup (IF ~T.same THEN {"the result depends on the chunk size (or its columns changed)"} ELSE {})
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
