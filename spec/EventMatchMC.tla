----------------------------- MODULE EventMatchMC -----------------------------
EXTENDS EventMatch, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, MaxEv
Seqs == UNION {{t \in [1 .. n -> 0 .. MaxEv] : \A k \in 1 .. n - 1 : t[k] <= t[k + 1]} : n \in 0 .. MaxLen}
MCInit == \E x, y \in Seqs : MInit(x, y)
MCSpec == MCInit /\ [][Sweep]_mvars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[a |-> x, b |-> y] : x \in Seqs, y \in Seqs}))
=============================================================================
