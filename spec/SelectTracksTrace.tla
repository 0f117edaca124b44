-------------------------- MODULE SelectTracksTrace --------------------------
(* One recording: one DUT of a call of select_tracks. rows[k] = [hit, qual, itrk, ihit:   *)
(* lists of DUTs; v: values of the columns]; conf; out: numbers of the input rows that     *)
(* came out (0: a row that is not in the input, or was modified); bad: the arguments of    *)
(* the call are contradictory (of any DUT); same: independent of chunk size.               *)
EXTENDS SelectTracks, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Set(s) == {s[k] : k \in DOMAIN s}
Row(r) == [hit |-> Set(r.hit), qual |-> Set(r.qual), itrk |-> Set(r.itrk), ihit |-> Set(r.ihit), v |-> r.v]
Conf == [hit |-> Set(T.conf.hit), nohit |-> Set(T.conf.nohit), qual |-> Set(T.conf.qual), itrk |-> Set(T.conf.itrk), ihit |-> Set(T.conf.ihit), q |-> T.conf.q]
Kept == LET K == Conf IN SelectSeq([k \in DOMAIN T.rows |-> k], LAMBDA k : Wanted(Row(T.rows[k]), K))
Fails ==
  IF T.bad = 1 THEN (IF T.exc = "ValueError" THEN {} ELSE {"contradictory or incomplete arguments are not refused"})
  ELSE IF T.exc # "" THEN {"selection failed"}
  ELSE (IF T.same # 1 THEN {"the selection depends on the chunk size"} ELSE {})
    \cup (IF T.present # 1 THEN {"output table missing"} ELSE {})
    \cup (IF T.extra # 0 THEN {"table of a DUT that was not selected"} ELSE {})
    \cup (IF \E k \in DOMAIN T.out : T.out[k] = 0 THEN {"a track was modified"} ELSE {})
    \cup (IF \E k \in DOMAIN T.out : k > 1 /\ T.out[k] # 0 /\ T.out[k - 1] >= T.out[k] THEN {"order of tracks, or a track twice"} ELSE {})
    \cup (LET K == Kept IN IF Set(T.out) \ {0} # Set(K) THEN (IF Set(K) \ Set(T.out) # {} THEN {"a track that fulfils all conditions is missing"} ELSE {})
                                     \cup (IF Set(T.out) \ (Set(K) \cup {0}) # {} THEN {"a track that does not fulfil the conditions was selected"} ELSE {}) ELSE {})
TInit == c = 1 /\ tab = <<>> /\ conf = <<>> /\ pos = 0 /\ out = <<>>
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1 /\ UNCHANGED svars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED svars
TSpec == TInit /\ [][TNext \/ TFinal]_<<c, svars>>
=============================================================================
