---------------------------- MODULE AlignmentTrace ----------------------------
(* Recordings: inp, exist (<<>>: none), truth: placements of the DUTs (10 nm, urad),  *)
(* groups, pars (sequences; <<0>>: default), tel: telescope DUTs, use: usable tracks  *)
(* per group and DUT, exc, got: placements in the file, same: of DUTs that are not    *)
(* selected nothing changed at all, beam: the telescope is as before, in: the input   *)
(* file is as before                                                                  *)
EXTENDS Alignment, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
tvars == <<avars, c>>
T == Traces[c]
SetOf(s) == {s[k] : k \in DOMAIN s}
(* the z position of telescope DUTs is kept if nothing else is asked for *)
ParSet(s, d) == IF s = <<0>> THEN IF d \in SetOf(T.tel) THEN Par \ {3} ELSE Par ELSE SetOf(s)
Sel == UNION {SetOf(T.groups[k]) : k \in DOMAIN T.groups}
Pos(d) == CHOOSE kj \in UNION {{k} \X DOMAIN T.groups[k] : k \in DOMAIN T.groups} : T.groups[kj[1]][kj[2]] = d
P(d) == LET kj == Pos(d) IN ParSet(T.pars[kj[1]][kj[2]], d)
(* the parameters that are not aligned have their true values *)
Consistent(d) == \A p6 \in Par \ P(d) : T.truth[d + 1][p6] = T.inp[d + 1][p6]
(* drift: tracks and additional displacement of each chunk; the average is asked for *)
RECURSIVE SumD(_, _), SumN(_)
SumN(k) == IF k = 0 THEN 0 ELSE SumN(k - 1) + T.drift[k][1]
SumD(a, k) == IF k = 0 THEN 0 ELSE SumD(a, k - 1) + T.drift[k][1] * T.drift[k][a + 1]
Shift(a) == IF T.drift = <<>> \/ a > 3 THEN 0 ELSE SumD(a, Len(T.drift)) \div SumN(Len(T.drift))
DutFails(d) ==
  LET s == T.inp[d + 1] o == T.got[d + 1] t == [a \in Par |-> T.truth[d + 1][a] + Shift(a)] IN
  (IF \A p6 \in {1, 2, 3} \ P(d) : o[p6] = s[p6] THEN {} ELSE {"translation not selected changed"})
  \cup (IF Faithful(P(d), s) => \A p6 \in {4, 5, 6} \ P(d) : o[p6] - s[p6] \in -1 .. 1 THEN {} ELSE {"rotation not selected changed"})
  \cup (IF Consistent(d) /\ Faithful(P(d), s) => \A p6 \in P(d) : o[p6] - t[p6] \in (IF p6 > 3 THEN -60 .. 60 ELSE -2 .. 2) THEN {} ELSE {"not recovered"})
NoUse == {k \in DOMAIN T.groups : \E j \in DOMAIN T.groups[k] : T.use[k][j] = 0}
Fails == (IF T.in = 1 THEN {} ELSE {"input file changed"})
         \cup (IF NoUse # {} THEN IF T.exc = "RuntimeError" THEN {} ELSE {"no tracks, not reported"}
               ELSE IF T.exc # "" THEN {"failed: " \o T.exc}
               ELSE UNION {DutFails(d) : d \in Sel})
         \cup (IF T.same = 1 THEN {} ELSE {"other DUT changed"}) \cup (IF T.beam = 1 THEN {} ELSE {"telescope changed"})
TInit == c = 1 /\ AInit(<<>>, <<>>, <<>>, <<>>, <<>>)
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
         /\ c' = c + 1 /\ UNCHANGED avars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED avars
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
