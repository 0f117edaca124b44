----------------------------- MODULE EventMergeMC -----------------------------
EXTENDS EventMerge, TLC, Json, IOUtils, SequencesExt
CONSTANTS L2, E2, L3, E3
S(L, E) == UNION {{t \in [1 .. n -> 0 .. E] : \A k \in 1 .. n - 1 : t[k] <= t[k + 1]} : n \in 0 .. L}
Inputs == (S(L2, E2) \X S(L2, E2)) \cup (S(L3, E3) \X S(L3, E3) \X S(L3, E3))
MCInit == \E x \in Inputs : GInit(x)
MCSpec == MCInit /\ [][MergeEvent]_gvars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> x] : x \in Inputs}))
=============================================================================
