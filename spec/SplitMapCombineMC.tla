-------------------------- MODULE SplitMapCombineMC --------------------------
(* Model check of the machine; enumeration of complete schedules for the replay. *)
EXTENDS SplitMapCombine, TLC, Json, IOUtils, TLCExt, SequencesExt
=============================================================================
