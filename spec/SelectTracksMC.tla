---------------------------- MODULE SelectTracksMC ----------------------------
EXTENDS SelectTracks, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Duts
S == SUBSET Duts
Tracks == [hit : S, qual : S, itrk : S, ihit : S, v : {<<1>>, <<2>>}]
Few == {t \in Tracks : t.v = <<1>> \/ t.hit = {}}
Confs == [hit : S, nohit : S, qual : S, itrk : S, ihit : S, q : {<<>>, <<<<<<1, 3, 3>>>>>>}]
SSpec == SInit(UNION {[1 .. n -> Few] : n \in 0 .. MaxLen}, Confs) /\ [][SNext]_svars
(* all configurations with two DUTs, for the real code *)
ESpec == SInit({<<>>}, {[hit |-> {}, nohit |-> {}, qual |-> {}, itrk |-> {}, ihit |-> {}, q |-> <<>>]}) /\ [][SNext]_svars
All == [hit : S, nohit : S, qual : S, itrk : S, ihit : S]
L(s) == SetToSeq(s)
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[hit |-> L(x.hit), nohit |-> L(x.nohit), qual |-> L(x.qual), itrk |-> L(x.itrk), ihit |-> L(x.ihit)] : x \in All}))
=============================================================================
