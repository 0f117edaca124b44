-------------------------- MODULE SplitMapCombineSim --------------------------
(* Random behaviours of the machine; each complete one is printed as a schedule. *)
EXTENDS SplitMapCombine, TLC, Json
Emit == AllEnded => PrintT(<<"BEH", ToJson([n |-> n, cores |-> cores, bad |-> bad, fins |-> fins, out |-> out, failed |-> failed])>>)
SInitSim == SInit /\ n > 1 /\ cores > 1 /\ (Cardinality(bad) < 2)
SNextSim == SNext /\ ~AllEnded
(* workers finish late: the queues are as full as possible *)
SNextLazy == /\ ~AllEnded
             /\ IF ENABLED (Read \/ Submit \/ Take) THEN Read \/ Submit \/ Take
                ELSE ReaderEnd \/ DispatcherEnd \/ Finish \/ Write \/ WriterFails \/ WriterEnd
=============================================================================
