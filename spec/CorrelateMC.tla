----------------------------- MODULE CorrelateMC -----------------------------
EXTENDS Correlate, TLC, Json, IOUtils, SequencesExt
CONSTANTS L, E, L3, E3
S(l, e) == UNION {{t \in [1 .. n -> 0 .. e] : \A k \in 1 .. n - 1 : t[k] <= t[k + 1]} : n \in 0 .. l}
Mult(t) == MaxOf({1} \cup {Cardinality({k \in DOMAIN t : t[k] = t[m]}) : m \in DOMAIN t})
Inputs == {x \in (S(L, E) \X S(L, E)) \cup (S(L3, E3) \X S(L3, E3) \X S(L3, E3)) : Mult(x[1]) <= Chunk}
MCInit == \E x \in Inputs : CInit(x, <<>>)
MCSpec == MCInit /\ [][CNext]_cvars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[ev |-> x] : x \in Inputs}))
=============================================================================
