--------------------------------- MODULE LsqMC ---------------------------------
(* the normal equations of Lsq give the line with the least sum of squares: no line    *)
(* through other values at the two ends of the grid is better                            *)
EXTENDS Lsq, Sequences, TLC
CONSTANTS Xs, Step
VARIABLES S, X
Z == <<0, 1, 2, 4>>
LInit == /\ S \in {s \in SUBSET (1 .. 4) : Cardinality(s) >= 2} /\ X \in [1 .. 4 -> Xs]
LSpec == LInit /\ [][FALSE]_<<S, X>>
Dn == Cardinality(S) * Den(S, Z)
(* sum of squares of Dn * (x - line), line scaled by Dn: a + b * z *)
Cost(a, b) == MapThenSumSet(LAMBDA p : (Dn * X[p] - a - b * Z[p]) * (Dn * X[p] - a - b * Z[p]), S)
B0 == Num(S, Z, X) * Cardinality(S)
A0 == Den(S, Z) * SumX(S, X) - Num(S, Z, X) * SumZ(S, Z)
Best == \A da, db \in {-Step, -1, 0, 1, Step} : Cost(A0, B0) <= Cost(A0 + da, B0 + db)
Exact == \A p \in S : (\E a, b \in -2 .. 2 : \A q \in S : X[q] = a + b * Z[q]) => OnLsq(S, Z, X, Z[p], X[p], 0)
=============================================================================
