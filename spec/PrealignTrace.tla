----------------------------- MODULE PrealignTrace -----------------------------
(* One DUT after one call of prealign. Lengths in 1/2 um. nom, tru, new: placements (nom as  *)
(* configured, tru as simulated, new as stored), half: half size of the matrix, bin, sel: DUT *)
(* is to be aligned (not the reference), lx, ly / ox, oy: limits stored / before (<<>>: none),*)
(* rest: all other parameters are the same (1), input: input file unchanged (1), refuse:      *)
(* output file is the input file (1).                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
P == INSTANCE Prealign WITH nominal <- <<>>, true <- <<>>, sel <- {}, ref <- 0, todo <- {}, place <- <<>>, bin <- 0
Fails == LET T == Traces[c] IN
  IF T.refuse = 1 THEN (IF T.exc # "ValueError" THEN {"input configuration as output was not refused"} ELSE {}) \cup (IF T.input # 1 THEN {"input configuration was modified"} ELSE {})
  ELSE IF T.exc # "" THEN {"prealignment failed"}
  ELSE (IF T.input # 1 THEN {"input configuration was modified"} ELSE {})
    \cup (IF T.rest # 1 THEN {"other parameters of the DUT"} ELSE {})
    \cup (IF T.new.t[3] # T.nom.t[3] THEN {"z position"} ELSE {})
    \cup (IF T.sel = 1
          THEN (IF P!Det(T.new) # 1 THEN {"orientation is no rotation along the axes"} ELSE {})
               \cup (IF T.new.m # T.tru.m THEN {"orientation"} ELSE IF ~P!Coincide(T.new, T.tru, T.half[1], T.half[2], 2 * T.bin) THEN {"position"} ELSE {})
               \cup (IF ~P!LimitOk(T.lx, T.ox, T.half[1]) \/ ~P!LimitOk(T.ly, T.oy, T.half[2]) THEN {"limits"} ELSE {})
               \cup (IF T.full = 1 /\ (2 * (T.lx[2] - T.lx[1]) < T.half[1] \/ 2 * (T.ly[2] - T.ly[1]) < T.half[2]) THEN {"limits exclude most of the correlated hits"} ELSE {})
          ELSE IF T.new # T.nom \/ T.lx # T.ox \/ T.ly # T.oy THEN {"a DUT that was not to be aligned was changed"} ELSE {})
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", Traces[c].id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
