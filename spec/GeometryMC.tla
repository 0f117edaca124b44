------------------------------ MODULE GeometryMC ------------------------------
(* every placement is a proper rotation, and the two directions undo each other *)
EXTENDS Geometry, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Angles
A4 == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
AFew == A4 \cup {<<4, 3, 5>>, <<3, -4, 5>>, <<12, -5, 13>>}
AAll == AFew \cup {<<-4, 3, 5>>, <<-5, -12, 13>>, <<24, 7, 25>>}
VARIABLE rot
Vecs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<3, -2, 5>>}
Id(d) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF i = j THEN d ELSE 0]]
GInit == rot \in Angles \X Angles \X Angles
GSpec == GInit /\ [][FALSE]_rot
M == Matrix(rot)
D == Denom(rot)
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
(* orthogonal, and right-handed *)
Proper == /\ Mul(M, Transp(M)) = Id(D * D)
          /\ Cross(M[1], M[2]) = [i \in 1 .. 3 |-> D * M[3][i]]
UndoOk == \A v \in Vecs : LET w == [i \in 1 .. 3 |-> v[i] * D] IN RotateBack(rot, Rotate(rot, w)) = w
(* rotation by gamma turns the x axis towards y, and so on *)
Oriented == (rot[1] = <<1, 0, 1>> /\ rot[2] = <<1, 0, 1>>) => Apply(Matrix(rot), <<1, 0, 0>>) = <<rot[3][1], rot[3][2], 0>>
=============================================================================
