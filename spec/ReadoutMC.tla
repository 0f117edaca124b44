------------------------------- MODULE ReadoutMC -------------------------------
EXTENDS Readout, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxHits, EvMax
Hit(p, e, k) == [p |-> p, ev |-> e, t |-> k, c |-> k, r |-> 10 * k, q |-> k % 3]
Hits == UNION {{[k \in 1 .. n |-> Hit(p[k], e[k], k)] : p \in [1 .. n -> 1 .. 3], e \in [1 .. n -> 0 .. EvMax]} : n \in 0 .. MaxHits}
MPlanes(k) == IF k = "fei4" THEN {<<1>>} ELSE {<<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 4>>}
MSpec == RInit(Hits, MPlanes, {"fei4", "mimosa"}) /\ [][RNext]_rvars
(* all schedules lead to the same files *)
Fair == MSpec /\ WF_rvars(RNext)
Ends == <>(status # "run")
ESpec == hits = <<>> /\ planes = <<>> /\ kind = "" /\ pos = 0 /\ last = 0 /\ outs = <<>> /\ status = "" /\ [][FALSE]_rvars
EHits == UNION {{[k \in 1 .. n |-> [p |-> p[k], ev |-> e[k]]] : p \in [1 .. n -> 1 .. 2], e \in [1 .. n -> 0 .. EvMax]} : n \in 0 .. MaxHits}
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[h |-> h, chunk |-> c] : h \in EHits, c \in 1 .. MaxHits}))
=============================================================================
