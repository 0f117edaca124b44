---------------------------- MODULE PixelMaskTrace ----------------------------
(* Recordings: cfg, hits (as given to the code, pixel numbers in the order of the     *)
(* file), occ and mask: stored arrays (flat, column by column; mask as 0/1),          *)
(* exc: exception, dis/disout: disable mask given / stored (<<>>: none).              *)
EXTENDS PixelMask, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, tie
T == Traces[c]
TInit == PInit(Traces[1].cfg, Traces[1].hits) /\ c = 1 /\ tie = FALSE
NextCase == /\ c' = c + 1
            /\ IF c < Len(Traces)
               THEN LET n == Traces[c + 1] IN
                    /\ cfg' = n.cfg /\ hits' = n.hits /\ pos' = 0 /\ occ' = [p \in 1 .. n.cfg.w * n.cfg.h |-> 0] /\ mask' = {}
                    /\ work' = <<>> /\ i' = 0 /\ phase' = "count" /\ tie' = FALSE
               ELSE UNCHANGED <<pvars, tie>>
Fails ==
  IF T.exc # "" THEN {"masking failed"}
  ELSE (IF T.occ # occ THEN {"the stored occupancy does not count every hit once"} ELSE {})
  \cup (IF ~tie /\ \E p \in mask : T.mask[p] # 1 THEN {"a noisy pixel is not masked"} ELSE {})
  \cup (IF ~tie /\ \E p \in DOMAIN T.mask : T.mask[p] = 1 /\ p \notin mask THEN {"a pixel is masked that is not noisy"} ELSE {})
  \cup (IF T.disout # T.dis THEN {"the disable mask is not stored as given"} ELSE {})
TNext == /\ c <= Len(Traces)
         /\ IF T.exc = "" /\ phase # "done" THEN PNext /\ c' = c /\ tie' = (tie \/ IF phase = "mask" THEN Tie(work, Background(work)) ELSE FALSE)
            ELSE (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ NextCase
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED <<pvars, tie>>
TSpec == TInit /\ [][TNext \/ TFinal]_<<pvars, c, tie>>
=============================================================================
