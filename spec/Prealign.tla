------------------------------- MODULE Prealign -------------------------------
(* Prealignment of DUTs from position correlations with a reference DUT (property C26).     *)
(* Placement of a DUT: [m: <<m11, m12, m21, m22>> orientation of its axes (signs), s: sign of *)
(* its normal, t: <<x, y, z>>]. The correlation of an axis has a slope (+1 or -1) and an      *)
(* offset at the centre of the DUT that is known to one bin.                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nominal, true, sel, ref, todo, place, bin
pvars == <<nominal, true, sel, ref, todo, place, bin>>
Abs(a) == IF a < 0 THEN -a ELSE a
(* position of a local point in global coordinates, without z *)
Glob(p, l) == <<p.m[1] * l[1] + p.m[2] * l[2] + p.t[1], p.m[3] * l[1] + p.m[4] * l[2] + p.t[2]>>
(* slope of the correlation in x (1) and y (2): orientations differ by flips of the axes *)
RowOf(p, ax) == IF ax = 1 THEN <<p.m[1], p.m[2]>> ELSE <<p.m[3], p.m[4]>>
Neg(v) == <<-v[1], -v[2]>>
Slope(n, t, ax) == IF RowOf(n, ax) = RowOf(t, ax) THEN 1 ELSE IF RowOf(n, ax) = Neg(RowOf(t, ax)) THEN -1 ELSE 0
(* a flip of x is a rotation around y, and vice versa: the normal is turned around too *)
Flip(p, ax) == IF ax = 1 THEN [p EXCEPT !.m = <<-@[1], -@[2], @[3], @[4]>>, !.s = -@] ELSE [p EXCEPT !.m = <<@[1], @[2], -@[3], -@[4]>>, !.s = -@]
PInit(N, T, S, R, B) == /\ nominal = N /\ true = T /\ sel = S \ {R} /\ ref = R /\ bin = B
                        /\ todo = (S \ {R}) \X {1, 2} /\ place = N
FitAxis(d, ax, e) == /\ <<d, ax>> \in todo /\ (ax = 2 => <<d, 1>> \notin todo)
                     /\ place' = [place EXCEPT ![d] = [(IF Slope(nominal[d], true[d], ax) = -1 THEN Flip(@, ax) ELSE @) EXCEPT !.t[ax] = true[d].t[ax] + e]]
                     /\ todo' = todo \ {<<d, ax>>} /\ UNCHANGED <<nominal, true, sel, ref, bin>>
PNext == \E d \in sel, ax \in {1, 2} : \E e \in -bin .. bin : FitAxis(d, ax, e)
-----------------------------------------------------------------------------
Det(p) == p.s * (p.m[1] * p.m[4] - p.m[2] * p.m[3])
Corners(sx, sy) == {<<a, b>> : a \in {-sx, sx}, b \in {-sy, sy}}
(* the hits of the DUT coincide with the true positions up to tol *)
Coincide(p, t, sx, sy, tol) == \A l \in Corners(sx, sy) \cup {<<0, 0>>} : LET a == Glob(p, l) b == Glob(t, l) IN Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Found == todo = {} => \A d \in sel : Coincide(place[d], true[d], 50, 30, bin) /\ place[d].m = true[d].m
Rotations == todo = {} => \A d \in DOMAIN place : Det(place[d]) = 1
OthersKept == \A d \in DOMAIN place \ sel : place[d] = nominal[d]
ZKept == \A d \in DOMAIN place : place[d].t[3] = nominal[d].t[3]
(* limits <<lo, hi>> (<<>>: none) after the prealignment: within the matrix and never wider than before *)
LimitOk(new, old, half) == /\ Len(new) = 2 /\ new[1] <= new[2] /\ -half <= new[1] /\ new[2] <= half
                           /\ (old # <<>> => old[1] <= new[1] /\ new[2] <= old[2])
=============================================================================
