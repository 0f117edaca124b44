-------------------------- MODULE CombineFilesTrace --------------------------
(* Recording of one call of combine_files. files[i][t] (t: number of the table; has[i][t]:   *)
(* present in file i) rows <<event number or -1, id>>; offs[i] (-1: none), req: numbers of    *)
(* the requested tables (<<>>: all); tabs[t]: output table, present[t]; ids are -1 for rows   *)
(* that are modified; app[t]: returned offsets, same: independent of the chunk size.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
C == INSTANCE CombineFiles WITH files <- <<>>, offs <- <<>>, names <- {}, f <- 0, tname <- "", pos <- 0, last <- <<>>, out <- <<>>, applied <- <<>>
T == Traces[c]
Set(s) == {s[q] : q \in DOMAIN s}
Fs == [i \in DOMAIN T.files |-> [t \in {u \in DOMAIN T.files[i] : T.has[i][u] = 1} |-> T.files[i][t]]]
Tabs == UNION {DOMAIN Fs[i] : i \in DOMAIN Fs}
Want == IF T.req = <<>> THEN Tabs ELSE Set(T.req) \cap Tabs
TabFails(t) ==
  IF T.present[t] # 1 THEN {"table missing"}
  ELSE LET o == T.tabs[t] IN
    IF \E q \in DOMAIN o : o[q][2] = -1 THEN {"a row was modified"}
    ELSE IF ~C!RowsOk(Fs, t, o) THEN {"rows of the table"}
    ELSE UNION {IF ~C!ShiftOk(Fs, T.offs, t, o) THEN {"shift of the event numbers"} ELSE {},
                IF ~C!NoShare(Fs, T.offs, t, o) THEN {"events of different files share a number"} ELSE {},
                IF ~C!Ordered(T.offs, o) THEN {"order of events"} ELSE {},
                \* returned offsets: one per file that has the table
                IF T.evt[t] = 1 THEN LET I == SelectSeq([i \in DOMAIN Fs |-> i], LAMBDA i : t \in DOMAIN Fs[i]) IN
                   IF Len(T.app[t]) # Len(I) \/ \E q \in DOMAIN I : \E p \in DOMAIN o : C!Owner(Fs, t, Len(Fs))[p] = I[q] /\ o[p][1] - C!Cat(Fs, t, Len(Fs))[p][1] # T.app[t][q]
                   THEN {"returned offsets"} ELSE {} ELSE {}}
Fails ==
  IF T.exc # "" THEN {"combining files failed"}
  ELSE (IF T.same # 1 THEN {"the result depends on the chunk size"} ELSE {})
    \cup (IF \E t \in Tabs \ Want : T.present[t] = 1 THEN {"table that was not requested"} ELSE {})
    \cup UNION {TabFails(t) : t \in Want}
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
