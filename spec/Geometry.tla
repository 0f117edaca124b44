------------------------------- MODULE Geometry -------------------------------
(* Placement of a plane: rotation about its origin (x axis by alpha, then y by beta,   *)
(* then z by gamma), followed by a translation. Angles are given as <<c, s, d>> with    *)
(* cos = c/d, sin = s/d and c*c + s*s = d*d, so that everything is exact in integers.   *)
EXTENDS Integers, Sequences
Rx(a) == << <<a[3], 0, 0>>, <<0, a[1], -a[2]>>, <<0, a[2], a[1]>> >>
Ry(a) == << <<a[1], 0, a[2]>>, <<0, a[3], 0>>, <<-a[2], 0, a[1]>> >>
Rz(a) == << <<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, a[3]>> >>
Mul(A, B) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
Transp(A) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[j][i]]]
Apply(A, v) == [i \in 1 .. 3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
(* rot = <<alpha, beta, gamma>>; the rotation is Matrix(rot) / Denom(rot) *)
Matrix(rot) == Mul(Rz(rot[3]), Mul(Ry(rot[2]), Rx(rot[1])))
Denom(rot) == rot[1][3] * rot[2][3] * rot[3][3]
DivR(a, d) == IF a >= 0 THEN (a + d \div 2) \div d ELSE -((-a + d \div 2) \div d)
DivV(v, d) == [i \in 1 .. 3 |-> DivR(v[i], d)]
Rotate(rot, v) == DivV(Apply(Matrix(rot), v), Denom(rot))
RotateBack(rot, v) == DivV(Apply(Transp(Matrix(rot)), v), Denom(rot))
ToGlobal(rot, tr, v) == LET w == Rotate(rot, v) IN [i \in 1 .. 3 |-> w[i] + tr[i]]
ToLocal(rot, tr, g) == RotateBack(rot, [i \in 1 .. 3 |-> g[i] - tr[i]])
Det(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
=============================================================================
