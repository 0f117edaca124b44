------------------------- MODULE SplitMapCombineTrace -------------------------
(* Recordings: rows: sequence of <<ev, a, v>>; func; n, cores, bad (chunks on which   *)
(* the function raises), fins (order in which the workers were released); out: the    *)
(* stored nodes (tables as sequences of tuples, histograms as nested sequences);      *)
(* exc; left: names of unexpected nodes/threads left behind.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
(* the functions, applied to the whole table *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Map(R) == [k \in DOMAIN R |-> <<R[k][1], R[k][3], 2 * R[k][3] + R[k][2]>>]
Filter(R) == SelectSeq(Map(R), LAMBDA x : x[2] % 2 = 0)
Evs(R) == SetToSortSeq({R[k][1] : k \in DOMAIN R}, <)
Count(S) == Cardinality(S)
RECURSIVE SumV(_, _)
SumV(R, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN R[k][3] + SumV(R, S \ {k})
Agg(R) == LET E == Evs(R) IN [k \in DOMAIN E |-> LET S == {q \in DOMAIN R : R[q][1] = E[k]} IN <<E[k], Count(S), SumV(R, S)>>]
Hist(R) == IF R = <<>> THEN <<0>> ELSE [b \in 1 .. MaxOf({R[k][3] : k \in DOMAIN R}) + 1 |-> Count({k \in DOMAIN R : R[k][3] = b - 1})]
Hist2(R) == IF R = <<>> THEN << <<0>> >> ELSE
            [i \in 1 .. MaxOf({R[k][2] : k \in DOMAIN R}) + 1 |->
             [j \in 1 .. MaxOf({R[k][3] : k \in DOMAIN R}) + 1 |-> Count({k \in DOMAIN R : R[k][2] = i - 1 /\ R[k][3] = j - 1})]]
Expected(f, R) == CASE f = "map" -> <<Map(R)>> [] f = "filter" -> <<Filter(R)>> [] f = "agg" -> <<Agg(R)>>
                    [] f = "hist" -> <<Hist(R)>> [] f = "hist2" -> <<Hist2(R)>> [] f = "multi" -> <<Map(R), Hist2(R), Filter(R)>>
Fails ==
  IF T.bad # <<>>
  THEN (IF T.exc = "" THEN {"an exception of the function was swallowed"} ELSE {})
       \cup (IF T.exc # "" /\ ~T.ownexc THEN {"failing function: the run failed in another way or did not end"} ELSE {})
       \cup (IF T.left # <<>> THEN {"threads or open files are left behind"} ELSE {})
  ELSE IF T.exc # "" THEN {"the run failed"}
  ELSE (IF T.out # Expected(T.func, T.rows) THEN {"the stored result differs from applying the function to the whole table"} ELSE {})
       \cup (IF T.left # <<>> THEN {"temporary nodes, threads or open files are left behind"} ELSE {})
       \cup (IF T.kept # T.rows THEN {"another node of the file was changed"} ELSE {})
TInit == c = 1
TNext == c <= Len(Traces) /\ (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ c' = c + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext \/ TFinal]_c
=============================================================================
