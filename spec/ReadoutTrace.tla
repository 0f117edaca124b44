----------------------------- MODULE ReadoutTrace -----------------------------
(* Recording of one conversion. hits, planes, kind as in Readout; namesOk: the given file   *)
(* names fit the planes; outs: rows <<ev, frame, column, row, charge>> per file (a row that *)
(* is not of the form of a hit is <<-9>>); exc; files: names of the files as expected (1).   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
R == INSTANCE Readout WITH hits <- <<>>, planes <- <<>>, kind <- "", pos <- 0, last <- 0, outs <- <<>>, status <- ""
Fails == LET T == Traces[c]
             ok == R!Rising(T.hits, 0)
             W == R!Wanted(T.kind, T.planes, T.hits)
         IN IF T.namesOk # 1 THEN (IF T.exc # "ValueError" THEN {"number of file names does not fit the planes, but was accepted"} ELSE {})
            ELSE IF T.exc # "" /\ ok THEN {"valid data was rejected"}
            ELSE IF T.exc = "" /\ ~ok THEN {"decreasing event numbers were accepted"}
            ELSE IF T.exc # "" /\ T.exc # "RuntimeError" THEN {"wrong kind of error"}
            ELSE IF ok
                 THEN (IF T.files # 1 THEN {"names of the files"} ELSE {})
                      \cup (IF Len(T.outs) # Len(W) THEN {"number of files"}
                            ELSE UNION {IF Len(T.outs[i]) # Len(W[i]) THEN {"number of hits"} ELSE IF T.outs[i] # W[i] THEN {"hits of the plane"} ELSE {} : i \in DOMAIN W})
                 ELSE IF \E i \in DOMAIN T.outs : i \notin DOMAIN W \/ ~R!Prefix(T.outs[i], W[i]) \/ \E q \in 2 .. Len(T.outs[i]) : T.outs[i][q - 1][1] > T.outs[i][q][1]
                 THEN {"rows stored before the data was rejected"} ELSE {}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", Traces[c].id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
