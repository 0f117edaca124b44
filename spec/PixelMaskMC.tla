------------------------------ MODULE PixelMaskMC ------------------------------
EXTENDS PixelMask, TLC, Json, IOUtils, SequencesExt
CONSTANTS W, H, MaxRoot, Filters, Chunks, Ths
Occs == [1 .. W * H -> {r * r : r \in {0} \cup {x \in Roots : x <= MaxRoot}}]
HitsOf(o) == FoldFunction(LAMBDA a, b : b \o a, <<>>, [p \in DOMAIN o |-> [k \in 1 .. o[p] |-> p]])
Cfgs == [w : {W}, h : {H}, fc : Filters, fr : Filters, tn : Ths, td : {2}, it : {0, 1}, chunk : Chunks]
Init == \E o \in Occs : \E c \in Cfgs : PInit(c, HitsOf(o))
Spec == Init /\ [][PNext]_pvars
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[o |-> o] : o \in Occs}))
ESpec == PInit([w |-> 1, h |-> 1], <<>>) /\ [][FALSE]_pvars
=============================================================================
