--------------------------- MODULE ConvertHitsTrace ---------------------------
(* Recordings of kind                                                                 *)
(*  "convert": all: geometry of every DUT of the telescope, select: DUT of every file *)
(*             (from 0), nin, nout: number of names given (-1: none), stages: [toLocal,*)
(*             in, out: files, exc, same: other chunk sizes give the same files,      *)
(*             form: kept columns and names of the files]                             *)
(*  "range":   ev, lo, hi, outs: rows selected, sorted or not assumed                 *)
EXTENDS ConvertHits, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
tvars == <<hvars, c>>
T == Traces[c]
Dut(k) == T.all[T.select[k] + 1]
Names == (\A k \in DOMAIN T.select : T.select[k] >= 0 /\ T.select[k] < Len(T.all)) /\ T.select # <<>>
         /\ T.nin = Len(T.select) /\ T.nout \in {-1, Len(T.select)}
Inside(st, k, h) == IF st.toLocal THEN InIndex(Dut(k), h.q) ELSE InLocal(Dut(k), h.q)
Refused(st) == \E k \in DOMAIN st.in : \E j \in DOMAIN st.in[k] : ~Inside(st, k, st.in[k][j])
Clip(v, n) == IF v < 4 THEN 4 ELSE IF v > 4 * n THEN 4 * n ELSE v
(* exactly between two pixels either one is right *)
IndexOk(x, o, size, n) == LET i == Index1(x, size, n) IN o = Clip(i, n) \/ (Tie(x, size, n) /\ o = Clip(i - 4, n))
HitOk(st, k, h, g) == /\ g.ev = h.ev /\ g.a = h.a
                      /\ IF st.toLocal THEN \A w \in 1 .. 2 : LET e == Local1(h.q[w], IF w = 1 THEN Dut(k).px ELSE Dut(k).py, IF w = 1 THEN Dut(k).nc ELSE Dut(k).nr) IN g.q[w] - e \in -1 .. 1
                         ELSE IndexOk(h.q[1], g.q[1], Dut(k).px, Dut(k).nc) /\ IndexOk(h.q[2], g.q[2], Dut(k).py, Dut(k).nr)
StageFails(st) ==
  IF ~Names \/ Refused(st) THEN IF st.exc = "ValueError" THEN {} ELSE {"not refused"}
  ELSE IF st.exc # "" THEN {"refused"}
  ELSE (IF Len(st.out) # Len(st.in) THEN {"files"} ELSE
        (IF \E k \in DOMAIN st.in : Len(st.out[k]) # Len(st.in[k]) THEN {"number of hits"} ELSE
         IF \E k \in DOMAIN st.in : \E j \in DOMAIN st.in[k] : ~HitOk(st, k, st.in[k][j], st.out[k][j]) THEN {"hits"} ELSE {}))
       \cup (IF st.same = 1 THEN {} ELSE {"chunk size"}) \cup (IF st.form = 1 THEN {} ELSE {"columns"})
Again == IF Len(T.stages) = 2 /\ T.stages[1].toLocal /\ T.stages[2].exc = "" /\ T.whole
         THEN IF T.stages[2].out = T.stages[1].in THEN {} ELSE {"not the original hits"} ELSE {}
RangeFails == LET P(k) == InRange(T.ev[k], T.lo, T.hi)
                  R == SelectSeq([k \in DOMAIN T.ev |-> k], P)
              IN IF \A j \in DOMAIN T.outs : T.outs[j] = R THEN {} ELSE {"range"}
Fails == IF T.kind = "range" THEN IF T.exc # "" THEN {T.exc} ELSE RangeFails
         ELSE IF T.exc # "" THEN {T.exc}
         ELSE UNION {StageFails(T.stages[k]) : k \in DOMAIN T.stages} \cup Again
TInit == c = 1 /\ HInit(<<>>, <<>>, TRUE)
TNext == /\ c <= Len(Traces)
         /\ \A f2 \in Fails : PrintT(<<"BAD", T.id, f2>>)
         /\ c' = c + 1 /\ UNCHANGED hvars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED hvars
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
