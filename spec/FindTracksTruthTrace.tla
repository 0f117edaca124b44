------------------------- MODULE FindTracksTruthTrace -------------------------
(* Recordings of one event; planes in the order along the beam. z: positions of the    *)
(* planes (um), tracks: <<ax, ay, sx, sy>> (um at the first plane, um per mm), truth:    *)
(* number of the hit of each track in each plane (0: none), sel: planes used for the    *)
(* extrapolation, sep: separation, scatter (um); out: rows found.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
Sel == {T.sel[k] : k \in DOMAIN T.sel}
Planes == DOMAIN T.z
HitsOf(k) == {p \in Planes : T.truth[k][p] # 0}
(* displacement of track k between two planes, um *)
Move(k, p, q) == (MaxOf({Abs(T.tracks[k][3]), Abs(T.tracks[k][4])}) * (T.z[q] - T.z[p])) \div 1000
(* the assumption of the property: where less than two hits can be used for the extrapolation, the track hardly moves *)
Usable == \A k \in DOMAIN T.tracks :
   \A p \in Planes : Cardinality({q \in HitsOf(k) : q < p /\ q \in Sel}) < 2 => 4 * (Move(k, MinOf(HitsOf(k)), p) + 2 * T.scatter) <= T.sep
Apart == \A j, k \in DOMAIN T.tracks : j # k => \A p \in Planes :
   \E m \in {1, 2} : 2 * Abs(T.tracks[j][m] - T.tracks[k][m] + ((T.tracks[j][m + 2] - T.tracks[k][m + 2]) * T.z[p]) \div 1000) >= T.sep - 10
Fails ==
  IF T.exc # "" THEN {"track finding failed"}
  ELSE IF ~(Usable /\ Apart) THEN {"BAD CASE: the tracks are not well separated"}
  ELSE IF Len(T.out) # Len(T.tracks) THEN {"number of rows of the event"}
  ELSE IF {T.out[k] : k \in DOMAIN T.out} # {T.truth[k] : k \in DOMAIN T.truth} THEN {"a row does not hold the hits of one track"} ELSE {}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
