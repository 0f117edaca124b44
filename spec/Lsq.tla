--------------------------------- MODULE Lsq ---------------------------------
(* Least-squares line through points <<z, x>> (integers), by its normal equations. *)
EXTENDS Integers, FiniteSets, FiniteSetsExt
AbsI(a) == IF a < 0 THEN -a ELSE a
(* P: function plane -> x, on a set S of planes with positions Z[p] *)
SumZ(S, Z) == MapThenSumSet(LAMBDA p : Z[p], S)
SumX(S, X) == MapThenSumSet(LAMBDA p : X[p], S)
Den(S, Z) == Cardinality(S) * MapThenSumSet(LAMBDA p : Z[p] * Z[p], S) - SumZ(S, Z) * SumZ(S, Z)
Num(S, Z, X) == Cardinality(S) * MapThenSumSet(LAMBDA p : Z[p] * X[p], S) - SumZ(S, Z) * SumX(S, X)
(* the value v at position z agrees with the line up to tol *)
OnLsq(S, Z, X, z, v, tol) ==
  LET n == Cardinality(S) den == Den(S, Z) IN
  AbsI(n * den * v - (den * SumX(S, X) + Num(S, Z, X) * (n * z - SumZ(S, Z)))) <= n * den * tol
SlopeOk(S, Z, X, s, tol) == AbsI(Den(S, Z) * s - Num(S, Z, X)) <= Den(S, Z) * tol
=============================================================================
