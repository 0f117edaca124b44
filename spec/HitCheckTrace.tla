----------------------------- MODULE HitCheckTrace -----------------------------
(* Recordings: rows [ev, q], range, local: positions (10 nm) or index (quarters),     *)
(* size: pitch (10 nm), n: pixels, res: bin width (10 nm), exc, evs, deltas,          *)
(* corr: per axis [n: bins, ent: [a, b, count] of the bins that are not empty],       *)
(* same: all chunk sizes gave the same                                                *)
EXTENDS HitCheck, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
tvars == <<hvars, c>>
T == Traces[c]
Ceil(a, b) == (a + b - 1) \div b
NBins(t, a) == Ceil(t.n[a] * t.size[a], t.res[a])
GeoOf(t) == [a \in Axes |-> LET s == t.n[a] * t.size[a] IN
              [n |-> NBins(t, a), lo |-> -(NBins(t, a) * t.res[a]), w |-> 2 * t.res[a],
               min |-> IF t.local THEN -(s \div 2) ELSE (t.size[a] \div 2) - s \div 2, max |-> IF t.local THEN s \div 2 ELSE s \div 2 - (t.size[a] \div 2)]]
RowsOf(t) == [k \in DOMAIN t.rows |-> [ev |-> t.rows[k].ev, q |-> IF t.local THEN t.rows[k].q
               ELSE [a \in Axes |-> (t.size[a] * (t.rows[k].q[a] - 2 - 2 * t.n[a])) \div 4]]]
LoadT(k) == IF k > Len(Traces) THEN UNCHANGED <<rows, range, geo>>
            ELSE rows' = RowsOf(Traces[k]) /\ range' = Traces[k].range /\ geo' = GeoOf(Traces[k])
RECURSIVE Sum(_, _)
Sum(e, j) == IF j = 0 THEN 0 ELSE Sum(e, j - 1) + e[j][3]
CorrFails(a, P) == LET x == T.corr[a] IN
  IF x.n # geo[a].n THEN {"number of bins"}
  ELSE IF /\ Sum(x.ent, Len(x.ent)) = Cardinality(P)
          /\ \A j \in DOMAIN x.ent : x.ent[j][3] = Cardinality({p \in P : BinOf(geo[a], rows[p[1]].q[a]) = x.ent[j][1] /\ BinOf(geo[a], rows[p[2]].q[a]) = x.ent[j][2]})
       THEN {} ELSE {"correlation of axis " \o ToString(a)}
Uniq == LET U[k \in 0 .. Len(rows)] == IF k = 0 THEN <<>> ELSE IF k = 1 \/ rows[k].ev # rows[k - 1].ev THEN Append(U[k - 1], rows[k].ev) ELSE U[k - 1] IN U[Len(rows)]
Fails == IF ~AllGood(Len(rows)) THEN IF T.exc \in {"RuntimeError", "ValueError"} THEN {} ELSE {"broken file accepted: " \o T.exc}
         ELSE IF T.exc # "" THEN {"rejected: " \o T.exc}
         ELSE LET P == AllPairs(Len(rows)) IN
              (IF T.evs = Uniq THEN {} ELSE {"event numbers"}) \cup (IF T.deltas = Diffs(Uniq) THEN {} ELSE {"event differences"})
              \cup UNION {CorrFails(a, P) : a \in Axes} \cup (IF T.same = 1 THEN {} ELSE {"depends on the chunk size"})
TInit == c = 1 /\ (IF Len(Traces) = 0 THEN HInit(<<>>, 0, <<[n |-> 1], [n |-> 1]>>) ELSE HInit(RowsOf(Traces[1]), Traces[1].range, GeoOf(Traces[1])))
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
         /\ c' = c + 1 /\ LoadT(c + 1) /\ UNCHANGED <<pos, evs, deltas, tail, corr, err>>
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED hvars
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
