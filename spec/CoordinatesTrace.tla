---------------------------- MODULE CoordinatesTrace ----------------------------
(* Recordings of kind                                                                  *)
(*  "walk":  dut, type ("" or a known sensor), steps [op, ov: replaced parameters,     *)
(*           cell, in, out: the points, exc]                                           *)
(*  "euler": a: angles given, R: matrix of the code, out: angles of the code (cosine   *)
(*           and sine), all times 10000                                                *)
(*  "cross": dut, lines [o, d], out                                                    *)
(*  "sphere": in, out (there and back), phi: azimuth in 1 / 10000 rad                  *)
EXTENDS Coordinates, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, k
tvars == <<cvars, c, k>>
T == Traces[c]
NaN == -99999999
IsNaN(p) == p[1] = NaN
Tol == 6
Close(p, q, tol) == Len(p) = Len(q) /\ \A j \in DOMAIN p : Abs(p[j] - q[j]) <= tol
AllClose(s, r, tol) == Len(s) = Len(r) /\ \A j \in DOMAIN s : Close(s[j], r[j], tol)
S == T.steps[k]
P == Placed(T.dut, S.ov)
(* what the step has to give for every point; "reject": the step has to be refused *)
Bad(op, p) == IF IsNaN(p) THEN op \notin {"local_to_global", "global_to_local"} ELSE
              CASE op = "index_to_local" -> ~InMatrix(T.dut, p)
                [] op = "index_to_global" -> ~InMatrix(T.dut, p)
                [] op = "local_to_index" -> ~InSensor(T.dut, p) \/ p[3] # 0
                [] op = "local_to_global" -> p[3] # 0 /\ ~S.anyov
                [] op = "global_to_local" -> ~S.anyov /\ Abs(GlobalToLocal(P, p)[3]) > Tol
                [] op = "global_to_index" -> Abs(GlobalToLocal(P, p)[3]) > Tol
                [] OTHER -> FALSE
Value(op, p) == IF IsNaN(p) THEN p ELSE
                CASE op = "index_to_local" -> IndexToLocal(T.dut, p)
                  [] op = "index_to_global" -> LocalToGlobal(P, IndexToLocal(T.dut, p))
                  [] op = "local_to_global" -> LocalToGlobal(P, p)
                  [] op = "global_to_local" -> GlobalToLocal(P, p)
                  [] OTHER -> p
Circ(a, b, m) == LET d == (a - b) % m IN d <= Tol \/ m - d <= Tol
StepOk ==
  IF S.op = "cell" THEN S.exc = "" /\ Len(S.out) = Len(S.in) /\ \A j \in DOMAIN S.in :
       IF IsNaN(S.in[j]) THEN IsNaN(S.out[j]) ELSE
       LET e == Cell(T.dut, S.in[j], S.cell[1], S.cell[2]) IN
       /\ Circ(S.out[j][1], e[1], S.cell[1] * T.dut.px) /\ S.out[j][1] >= -Tol /\ S.out[j][1] <= S.cell[1] * T.dut.px + Tol
       /\ Circ(S.out[j][2], e[2], S.cell[2] * T.dut.py) /\ S.out[j][2] >= -Tol /\ S.out[j][2] <= S.cell[2] * T.dut.py + Tol
  ELSE IF S.op \in {"extent", "global_extent"} THEN S.exc = "" /\ AllClose(Extent(T.dut, S.op = "global_extent"), S.out, Tol)
  ELSE IF \E j \in DOMAIN S.in : Bad(S.op, S.in[j]) THEN S.exc \in {"ValueError", "RuntimeError"}
  ELSE IF S.op \in {"local_to_index", "global_to_index"} THEN
       S.exc = "" /\ Len(S.out) = Len(S.in) /\ \A j \in DOMAIN S.in :
         LET p == IF S.op = "local_to_index" THEN S.in[j] ELSE GlobalToLocal(P, S.in[j]) IN
         /\ Abs(4 * p[1] - T.dut.px * (S.out[j][1] - 2 - 2 * T.dut.nc)) <= T.dut.px \div 2 + 4 * Tol
         /\ Abs(4 * p[2] - T.dut.py * (S.out[j][2] - 2 - 2 * T.dut.nr)) <= T.dut.py \div 2 + 4 * Tol
  ELSE S.exc = "" /\ AllClose([j \in DOMAIN S.in |-> Value(S.op, S.in[j])], S.out, Tol)
Known == T.type = "" \/ LET d == Sensors[T.type] IN <<T.dut.px, T.dut.py, T.dut.nc, T.dut.nr>> = <<d[1], d[2], d[3], d[4]>>
(* rotation matrix times 10000 of angles given as <<cosine, sine>> times 10000 *)
A3(a) == <<a[1], a[2], 10000>>
Sc(M) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> DivR(M[i][j], 10000)]]
M4(a) == Sc(Mul(Rz(A3(a[3])), Sc(Mul(Ry(A3(a[2])), Rx(A3(a[1]))))))
Normal == LET M == Matrix(T.dut.rot) IN <<M[1][3], M[2][3], M[3][3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Sub(u, v) == [j \in 1 .. 3 |-> u[j] - v[j]]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
CrossOk(l, p) == IF Dot(Normal, l.d) = 0 THEN \A j \in 1 .. 3 : p[j] = NaN
                 ELSE /\ Abs(Dot(Normal, Sub(p, T.dut.tr))) <= 2 * Denom(T.dut.rot)
                      /\ \A j \in 1 .. 3 : Abs(Cross(Sub(p, l.o), l.d)[j]) <= 3 * (1 + Abs(l.d[1]) + Abs(l.d[2]) + Abs(l.d[3]))
Fails ==
  CASE T.kind = "walk" -> (IF ~StepOk THEN {"wrong result of a coordinate conversion"} ELSE {}) \cup (IF ~Known THEN {"wrong geometry of a known sensor"} ELSE {})
    [] T.kind = "euler" -> IF T.exc # "" THEN {"Euler angles failed"}
                           ELSE (IF ~AllClose(M4(T.a), T.R, 5) THEN {"the rotation matrix is not x, then y, then z"} ELSE {})
                             \cup (IF ~AllClose(M4(T.out), T.R, 5) THEN {"the Euler angles do not rebuild the matrix"} ELSE {})
    [] T.kind = "cross" -> IF T.exc # "" \/ Len(T.out) # Len(T.lines) THEN {"intersection failed"}
                           ELSE IF \E j \in DOMAIN T.out : ~CrossOk(T.lines[j], T.out[j]) THEN {"the intersection is not on line and plane"} ELSE {}
    [] T.kind = "sphere" -> IF T.exc # "" THEN {"spherical coordinates failed"}
                            ELSE (IF ~AllClose(T.in, T.out, 2) THEN {"spherical coordinates are not reversible"} ELSE {})
                              \cup (IF \E j \in DOMAIN T.phi : T.phi[j] < 0 \/ T.phi[j] > 62832 THEN {"azimuth out of range"} ELSE {})
Last == T.kind # "walk" \/ k = Len(T.steps)
TInit == c = 1 /\ k = 1 /\ dut = Traces[1].dut /\ frame = "index" /\ pos = <<0, 0>>
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
         /\ IF Last THEN /\ c' = c + 1 /\ k' = 1
                         /\ dut' = (IF c < Len(Traces) THEN Traces[c + 1].dut ELSE dut) /\ frame' = "index" /\ pos' = <<0, 0>>
            ELSE /\ c' = c /\ k' = k + 1 /\ dut' = dut /\ frame' = frame /\ pos' = pos
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED <<cvars, k>>
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
