---------------------------- MODULE EventLimitMC ----------------------------
EXTENDS EventLimit
CONSTANTS MaxChunks, MaxEv, MaxLim
Seqs(lo) == UNION {[1 .. n -> lo .. MaxEv] : n \in 1 .. MaxChunks}
USpec == EInit(Seqs(1), 1 .. MaxLim) /\ [][ENext]_evars
Eq == {[j \in 1 .. n |-> IF j = n THEN b ELSE a] : n \in 1 .. MaxChunks, a \in 1 .. MaxEv, b \in 1 .. MaxEv}
QSpec == EInit({s \in Eq : s[Len(s)] <= s[1]}, 1 .. MaxLim) /\ [][ENext]_evars
FSpec == EInitRows(Seqs(0), Seqs(1), 1 .. MaxLim) /\ [][ENext]_evars
=============================================================================
