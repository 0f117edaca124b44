-------------------------- MODULE ApplyAlignmentTrace --------------------------
(* A recording is a sequence of conversions of one table: stages[1] is the input,     *)
(* stages[k + 1] the table after convs[k]. A stage is a sequence of rows, a row a     *)
(* sequence of cells, one per DUT (and one for the columns of the table's own DUT):   *)
(* [d: DUT, p, o, s, e: position, offset, slope, error (<<>>: no such column)].       *)
(* place[d] = [rot, tr], place of the telescope: tele. other: all other columns and   *)
(* the number and order of the rows are untouched; same: no influence of chunk size.  *)
EXTENDS Geometry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, k
T == Traces[c]
NaN == -99999999
Tol == 4
A == INSTANCE ApplyAlignment WITH NDuts <- 0, NRows <- 0, cells <- <<>>, todo <- <<>>, pos <- 0, cur <- <<0, 0, 0>>, hist <- <<>>
AbsV(v) == IF v < 0 THEN -v ELSE v
Place(op) == IF op[1] = 0 THEN T.tele ELSE T.place[op[1]]
Move(op, v, tr) == IF v[1] = NaN THEN v ELSE
                   LET q == Place(op) z == <<0, 0, 0>> IN
                   IF op[2] = 1 THEN ToGlobal(q.rot, IF tr THEN q.tr ELSE z, v) ELSE ToLocal(q.rot, IF tr THEN q.tr ELSE z, v)
RECURSIVE Fold(_, _, _, _)
Fold(ops, v, tr, abs) == IF ops = <<>> THEN v ELSE
                         LET w == Move(Head(ops), v, tr) IN
                         Fold(Tail(ops), IF abs /\ w[1] # NaN THEN [j \in 1 .. 3 |-> AbsV(w[j])] ELSE w, tr, abs)
Conv == T.convs[k]
Ops(d) == A!Ops(Conv, d)
Close(p, q) == Len(p) = Len(q) /\ \A j \in DOMAIN p : AbsV(p[j] - q[j]) <= Tol
Opt(v, tr, abs, d) == IF v = <<>> THEN <<>> ELSE Fold(Ops(d), v, tr, abs)
In == T.stages[k]
Refused == \E i \in DOMAIN In : \E j \in DOMAIN In[i] : LET x == In[i][j] IN
             /\ x.p # <<>> /\ x.p[1] # NaN
             /\ AbsV(IF Conv.fwd THEN x.p[3] ELSE Fold(Ops(x.d), x.p, TRUE, FALSE)[3]) > Tol
CellOk(x, y) == /\ x.d = y.d
                /\ Close(Opt(x.p, TRUE, FALSE, x.d), y.p)
                /\ Close(Opt(x.o, TRUE, FALSE, x.d), y.o)
                /\ Close(Opt(x.s, FALSE, FALSE, x.d), y.s)
                /\ Close(Opt(x.e, FALSE, TRUE, x.d), y.e)
Fails == IF Refused THEN (IF T.exc[k] # "RuntimeError" THEN {"a position off the DUT plane is accepted"} ELSE {})
         ELSE IF T.exc[k] # "" THEN {"applying the alignment failed"}
         ELSE LET Out == T.stages[k + 1] IN
              (IF Len(Out) # Len(In) THEN {"rows are lost or added"}
               ELSE IF \E i \in DOMAIN In : Len(In[i]) # Len(Out[i]) \/ \E j \in DOMAIN In[i] : ~CellOk(In[i][j], Out[i][j]) THEN {"a converted value is not the placed one"} ELSE {})
              \cup (IF T.other[k] = 0 THEN {"other columns, rows or tables are changed"} ELSE {})
              \cup (IF T.same[k] = 0 THEN {"the result depends on the chunk size"} ELSE {})
(* there and back again: the same values as before *)
Undone == k > 1 /\ T.exc[k] = "" /\ ~Refused /\ T.convs[k - 1].fwd # Conv.fwd /\ T.convs[k - 1].beam = Conv.beam
Far(p, q) == ~Close(p, q)
BackOk == ~Undone \/ LET P == T.stages[k - 1] Q == T.stages[k + 1] IN
          Len(P) = Len(Q) /\ \A i \in DOMAIN P : \A j \in DOMAIN P[i] :
             Close(P[i][j].p, Q[i][j].p) /\ Close(P[i][j].o, Q[i][j].o) /\ Close(P[i][j].s, Q[i][j].s)
Last == k = Len(T.convs) \/ T.exc[k] # "" \/ Refused
TInit == c = 1 /\ k = 1
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails \cup (IF BackOk THEN {} ELSE {"not restored by converting back"}) : PrintT(<<"BAD", T.id, f>>)
         /\ IF Last THEN c' = c + 1 /\ k' = 1 ELSE c' = c /\ k' = k + 1
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ k' = k
TSpec == TInit /\ [][TNext \/ TFinal]_<<c, k>>
===============================================================================
