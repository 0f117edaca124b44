------------------------------ MODULE TrackFlags ------------------------------
(* Flags of tracks (property C11). The in-event neighbour search marks both partners of  *)
(* every pair of points of the same event that is within the isolation distance.         *)
(* Points: <<event, x, y>>, or <<event>> if there is none. Distances are doubled (2 * d). *)
EXTENDS Integers, Sequences, FiniteSets
AbsF(a) == IF a < 0 THEN -a ELSE a
(* dx, dy: differences; D = <<2 * limit in x, 2 * limit in y>>, or <<>>: no limit *)
InBox(dx, dy, D) == 2 * AbsF(dx) <= D[1] /\ 2 * AbsF(dy) <= D[2]
InEllipse(dx, dy, D) == 4 * dx * dx * D[2] * D[2] + 4 * dy * dy * D[1] * D[1] <= D[1] * D[1] * D[2] * D[2]
Within(dx, dy, D, ell) == D = <<>> \/ IF ell /\ D[1] > 0 /\ D[2] > 0 THEN InEllipse(dx, dy, D) ELSE InBox(dx, dy, D)
Close(p, q, D, ell) == Len(p) = 3 /\ Len(q) = 3 /\ Within(p[2] - q[2], p[3] - q[3], D, ell)
(* what is to be found *)
Isolated(P, i, D, ell) == \A j \in DOMAIN P : j # i /\ P[j][1] = P[i][1] => ~Close(P[i], P[j], D, ell)
-----------------------------------------------------------------------------
VARIABLES pts, dist, ell, i, j, mark, cmp
fvars == <<pts, dist, ell, i, j, mark, cmp>>
FInit(P, D, e) == pts = P /\ dist = D /\ ell = e /\ i = 1 /\ j = 2 /\ mark = [k \in DOMAIN P |-> FALSE] /\ cmp = {}
FDone == i > Len(pts)
SameEv == j <= Len(pts) /\ pts[j][1] = pts[i][1]
Compare == /\ ~FDone /\ SameEv
           /\ mark' = IF Close(pts[i], pts[j], dist, ell) THEN [mark EXCEPT ![i] = TRUE, ![j] = TRUE] ELSE mark
           /\ cmp' = cmp \cup {{i, j}}
           /\ j' = j + 1 /\ UNCHANGED <<pts, dist, ell, i>>
Advance == /\ ~FDone /\ ~SameEv /\ i' = i + 1 /\ j' = i + 2 /\ UNCHANGED <<pts, dist, ell, mark, cmp>>
FNext == Compare \/ Advance
Exact == FDone => \A k \in DOMAIN pts : mark[k] = ~Isolated(pts, k, dist, ell)
OnlyOwnEvent == \A c \in cmp : \A a, b \in c : pts[a][1] = pts[b][1]
AllPairs == FDone => \A a, b \in DOMAIN pts : a # b /\ pts[a][1] = pts[b][1] => {a, b} \in cmp
(* marks are symmetric: a marked point has a marked partner in its event *)
Partner == \A a \in DOMAIN pts : mark[a] => \E b \in DOMAIN pts : b # a /\ mark[b] /\ pts[a][1] = pts[b][1]
=============================================================================
