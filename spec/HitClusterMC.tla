----------------------------- MODULE HitClusterMC -----------------------------
EXTENDS HitCluster, TLC, Json, IOUtils, SequencesExt
CONSTANTS W, H, N, Frames, Charges, Dists
Pix == (1 .. W) \X (1 .. H)
(* events: sequences of different pixels *)
Orders(n) == {s \in [1 .. n -> Pix] : \A a, b \in 1 .. n : a # b => s[a] # s[b]}
Inputs == UNION {Orders(n) : n \in 1 .. N}
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[h |-> s] : s \in Inputs}))
Cfgs == [dc : Dists, dr : Dists, df : {0, 1}, qmin : {0, 2}, qmax : {9}, dis : {{}, {<<2, 1>>}}, noi : {{}, {<<1, 1>>, <<2, 2>>}}]
Init == \E s \in Inputs : \E g \in Cfgs : \E f \in [DOMAIN s -> Frames] : \E q \in [DOMAIN s -> Charges] :
          HInit([k \in DOMAIN s |-> [c |-> s[k][1], r |-> s[k][2], f |-> f[k], q |-> q[k]]], g)
Spec == Init /\ [][HNext]_hvars
=============================================================================
