----------------------------- MODULE ConvertHitsMC -----------------------------
EXTENDS ConvertHits, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxHits, Cols, EvMax
VARIABLE orig
D1 == [px |-> 20, py |-> 8, nc |-> 2, nr |-> 1]
D2 == [px |-> 12, py |-> 4, nc |-> 1, nr |-> 3]
Evs == UNION {{s \in [1 .. n -> 0 .. EvMax] : \A k \in 1 .. n - 1 : s[k] <= s[k + 1]} : n \in 0 .. MaxHits}
Hits(d) == UNION {{[k \in 1 .. Len(e) |-> [ev |-> e[k], a |-> k, q |-> <<4 * c[k], 4 * (((k - 1) % d.nr) + 1)>>]] :
                   c \in [1 .. Len(e) -> 1 .. d.nc]} : e \in Evs}
MInit == \E h1 \in Hits(D1), h2 \in Hits(D2) : HInit(<<D1, D2>>, <<h1, h2>>, TRUE) /\ orig = <<h1, h2>>
MChunk == (\E n \in 1 .. MaxHits : Chunk(n)) /\ UNCHANGED orig
MNextFile == NextFile /\ UNCHANGED orig
MBack == Back /\ UNCHANGED orig
MNext == MChunk \/ MNextFile \/ MBack
MSpec == MInit /\ [][MNext]_<<hvars, orig>>
Prefix == \A k \in DOMAIN outs : k <= Len(files) => /\ Len(outs[k]) <= Len(files[k])
            /\ \A j \in DOMAIN outs[k] : outs[k][j] = Conv(duts[k], files[k][j])
Complete == Done => Len(outs) = Len(files) /\ \A k \in DOMAIN files : Len(outs[k]) = Len(files[k])
BackAgain == (Done /\ ~toLocal) => outs = orig
Distinct == (Done /\ toLocal) => \A k \in DOMAIN outs : \A i, j \in DOMAIN outs[k] : outs[k][i].q = outs[k][j].q => files[k][i].q = files[k][j].q
(* event ranges: enumerated for replay in the code *)
ESpec == orig = <<>> /\ duts = <<>> /\ files = <<>> /\ toLocal = TRUE /\ f = 0 /\ pos = 0 /\ outs = <<>> /\ [][FALSE]_<<hvars, orig>>
Lims == {<<>>} \cup {<<v>> : v \in 0 .. EvMax + 1}
Ranges == {[ev |-> e, lo |-> l, hi |-> h] : e \in Evs, l \in Lims, h \in Lims}
RangeOk == \A r \in Ranges : LET S == RangeOf(r.ev, r.lo, r.hi) IN
             \A k \in DOMAIN S : \A j \in DOMAIN S : k < j => S[k] < S[j] /\ S[j] - S[k] = j - k
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Ranges))
===============================================================================
