--------------------------- MODULE EventLimitTrace ---------------------------
(* One recording: output table of a stage with event limit n (0: none). ev[r]: event of   *)
(* row r of the output without limit; out: numbers of these rows found in the output with  *)
(* limit (0: a different row); one: processed in a single chunk; uni: events of the input   *)
(* have equal size and none of their rows is removed; blocks: events of every chunk that    *)
(* was read (if known); again: a second call gives the same.                                *)
EXTENDS EventLimit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Set(s) == {s[q] : q \in DOMAIN s}
Fails ==
  IF T.exc # "" THEN {"stage failed with a limit on the number of events"}
  ELSE
  LET R == DOMAIN T.ev
      O == Set(T.out) \ {0}
      E == Set(T.ev)                              \* available events
      K == {T.ev[r] : r \in O}                    \* stored events
      nE == Cardinality(E)  nK == Cardinality(K)
      B == [j \in DOMAIN T.blocks |-> Set(T.blocks[j]) \cap E]
      kb == [j \in DOMAIN B |-> Cardinality(B[j] \cap K)]
      cb == [j \in DOMAIN B |-> Cardinality(B[j])]
      nb == Len(B)
      share == T.uni = 1 /\ nb > 1 /\ T.n > 0 /\ T.n <= nE /\ T.n * cb[1] >= nE /\ (\A j \in 1 .. nb - 1 : cb[j] = cb[1]) /\ cb[nb] <= cb[1]
      half == {e \in E : 2 * Cardinality({f \in E : f < e}) < nE}
  IN UNION {
    IF \E j \in DOMAIN T.out : T.out[j] = 0 THEN {"a stored row is not a row of the data"} ELSE {},
    IF \E j \in DOMAIN T.out : j > 1 /\ T.out[j] # 0 /\ T.out[j - 1] >= T.out[j] THEN {"order of rows, or a row twice"} ELSE {},
    IF \E r \in R : T.ev[r] \in K /\ r \notin O THEN {"event stored in parts"} ELSE {},
    IF T.n > 0 /\ nK > T.n THEN {"more events than the limit"} ELSE {},
    IF T.n > 0 /\ T.one = 1 /\ nK # MinE(T.n, nE) THEN {"number of events in a single chunk"} ELSE {},
    IF T.n = 0 /\ K # E THEN {"events dropped without limit"} ELSE {},
    IF T.n >= nE /\ T.uni = 1 /\ K # E THEN {"events dropped although there are not more than the limit"} ELSE {},
    IF T.n > 0 /\ nb > 0 /\ nK < T.n /\ ~(B[nb] \subseteq K) THEN {"limit not reached, but events of the last chunk dropped"} ELSE {},
    IF share /\ \E j \in 1 .. nb - 1 : kb[j] * nE > 2 * T.n * cb[j] THEN {"too many events of a part of the file"} ELSE {},
    IF share /\ \E j \in 1 .. nb - 1 : SumTo(kb, j) < T.n /\ 2 * kb[j] * nE < T.n * cb[j] THEN {"too few events of a part of the file"} ELSE {},
    IF T.one = 1 /\ nE >= 40 /\ 4 * T.n >= nE /\ 4 * T.n <= 3 * nE /\ (K \subseteq half \/ K \cap half = {}) THEN {"events of one half of the file only"} ELSE {},
    IF T.again # 1 THEN {"repeated call stores other events"} ELSE {}}
TInit == c = 1 /\ ch = <<>> /\ rw = <<>> /\ lim = 0 /\ k = 0 /\ kept = <<>>
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1 /\ UNCHANGED evars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED evars
TSpec == TInit /\ [][TNext \/ TFinal]_<<c, evars>>
=============================================================================
