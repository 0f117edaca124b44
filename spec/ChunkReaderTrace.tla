--------------------------- MODULE ChunkReaderTrace ---------------------------
(* Trace validation: every recorded read of the real reader must be a behaviour of  *)
(* ChunkReader. Recordings: [tbl, cfg, ev] with ev a sequence of                     *)
(*   [e |-> "chunk", rows |-> row ids, idx |-> returned index] / "end" / "error".    *)
EXTENDS ChunkReader, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, k
tvars == <<vars, c, k>>
Cfg(x) == x.cfg
Load(n) == IF n <= Len(Traces)
           THEN tbl' = Traces[n].tbl /\ cfg' = Traces[n].cfg /\ pos' = -1 /\ out' = <<>> /\ st' = "seek"
           ELSE tbl' = <<>> /\ UNCHANGED cfg /\ pos' = -1 /\ out' = <<>> /\ st' = "none"
TInit == /\ tbl = Traces[1].tbl /\ cfg = Traces[1].cfg /\ pos = -1 /\ out = <<>> /\ st = "seek" /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ Load(c + 1)
Bad(m) == PrintT(<<"BAD", Traces[c].id, m>>) /\ NextCase
Step == k' = k + 1 /\ c' = c
Ev1 == Traces[c].ev[k]
TakeChunk(e) ==
  LET hi == pos + Len(e.rows) IN
  IF Len(e.rows) = 0 THEN Bad("an empty chunk was handed out")
  ELSE IF e.rows # [i \in 1 .. Len(e.rows) |-> pos + i - 1] THEN Bad("the chunk does not hold the next rows of the requested range")
  ELSE IF e.idx # hi THEN Bad("the returned index is not right behind the last row")
  ELSE IF ~ ENABLED Read(hi) THEN Bad("the chunk is too large, splits an event or leaves the requested range")
  ELSE Read(hi) /\ Step
TNext ==
  /\ c <= Len(Traces)
  /\ IF k > Len(Traces[c].ev) THEN NextCase
     ELSE IF Ev1.e = "error"
       THEN IF MissingErrorAllowed(tbl, cfg) /\ st = "seek" THEN SeekFails /\ Step
            ELSE IF TooLargeAllowed(tbl, cfg) THEN TooLarge /\ Step
            ELSE Bad("an error was reported although every event fits and the range exists")
     ELSE IF Ev1.e = "crash" THEN Bad("unexpected failure while reading")
     ELSE IF st = "seek"
       THEN IF ENABLED Seek THEN Seek /\ UNCHANGED <<c, k>>
            ELSE Bad("a missing start event was not reported")
     ELSE IF Ev1.e = "chunk" THEN TakeChunk(Ev1)
     ELSE IF pos < RangeEnd(tbl, cfg) THEN Bad("rows of the requested range were not handed out")
     ELSE Finish /\ Step
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED <<vars, k>>
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
\* the invariants of the specification are evaluated along the recorded behaviours, too
TInv == (c <= Len(Traces)) => (InOrderOnce /\ NotTooBig /\ (st = "done" => CoversExactly))
=============================================================================
