----------------------------- MODULE FitSelectMC -----------------------------
EXTENDS FitSelect, TLC, Json, IOUtils, SequencesExt
CONSTANTS HitSets, Mins, Needs
D == 1 .. 3
HitSetsFew == {{}, {1}, {2, 3}}
HitSetsAll == SUBSET D
Settings(d) == {[dut |-> d, fit |-> f, hits |-> h, min |-> m, excl |-> x] :
                f \in {s \in SUBSET D : Cardinality(s) >= 2}, h \in HitSets, m \in Mins, x \in BOOLEAN}
RowsAll == << <<0, {1, 2, 3}>>, <<0, {1, 2}>>, <<1, {2, 3}>>, <<3, {1, 3}>>, <<3, {2}>>, <<4, {1, 2, 3}>> >>
MInit == \E d, b \in D : d < b /\ \E x \in Settings(d) : \E y \in Settings(b) : \E n \in Needs : SInit(RowsAll, <<x, y>>, n)
MSpec == MInit /\ [][SNext]_svars
Ends == <>SDone
MLive == MInit /\ [][SNext]_svars /\ WF_svars(SNext)
ESpec == SInit(RowsAll, <<>>, 2) /\ [][FALSE]_svars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION {Settings(d) : d \in D}))
=============================================================================
