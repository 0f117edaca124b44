----------------------------- MODULE IndexCountMC -----------------------------
EXTENDS IndexCount, TLC, Json, IOUtils, SequencesExt
CONSTANTS L
Tup(k, v) == [1 .. k -> v]
SeqsOf(S, m) == UNION {[1 .. q -> S] : q \in 0 .. m}
SortedSeqs(m) == {t \in SeqsOf(0 .. 3, m) : \A k \in 1 .. Len(t) - 1 : t[k] <= t[k + 1]}
Hists == {[op |-> "hist", xs |-> x, shape |-> s] : x \in SeqsOf(Tup(2, -1 .. 2), 2), s \in {<<2, 2>>, <<1, 3>>, <<3, 1>>}}
    \cup {[op |-> "hist", xs |-> x, shape |-> <<2>>] : x \in SeqsOf(Tup(1, -1 .. 2), 3)}
    \cup {[op |-> "hist", xs |-> x, shape |-> s] : x \in SeqsOf(Tup(3, 0 .. 2), 1), s \in {<<2, 1, 3>>, <<3, 2, 1>>}}
Ranges == {[op |-> "range", xs |-> x, range |-> r] : x \in SortedSeqs(L), r \in 0 .. 3}
Lookups == {[op |-> "lookup", xs |-> x, ys |-> y, sorted |-> FALSE] : x \in SeqsOf(0 .. 3, 3), y \in SeqsOf(0 .. 3, 3) \ {<<>>}}
      \cup {[op |-> "lookup", xs |-> x, ys |-> y, sorted |-> TRUE] : x \in SeqsOf(0 .. 3, 2), y \in SortedSeqs(3) \ {<<>>}}
Inputs == Hists \cup Ranges \cup Lookups
MCInit == \E x \in Inputs : CInit(x)
MCSpec == MCInit /\ [][CNext]_cvars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Hists) \o SetToSeq(Ranges) \o SetToSeq(Lookups))
=============================================================================
