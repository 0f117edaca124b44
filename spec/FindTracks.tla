------------------------------ MODULE FindTracks ------------------------------
(* Track finding within one event (properties C07 and C08).                           *)
(* x[r][d] : number of the hit of DUT d (DUTs in order of z) in row r, 0: no hit;      *)
(* the hit with number h of DUT d lies at Pos(h, d) (scaled so that extrapolations     *)
(* are integer). sel: DUTs used for the extrapolation.                                 *)
(* One action visits one row for one DUT: it takes the nearest hit of that DUT that     *)
(* fits better to this row than to its present one and exchanges the two.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Pos(_, _, _)      \* Pos(tr, h, d)
VARIABLES tr,   \* description of the hits
          sel,
          x0, x,
          d,    \* present DUT
          r,    \* present row of the loop
          cur   \* row to visit: r, or a row before r that lost its hit
fvars == <<tr, sel, x0, x, d, r, cur>>
Rows == DOMAIN x
NDut == Len(x[1])
Abs(a) == IF a < 0 THEN -a ELSE a
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
First(X, q) == LET S == {e \in 1 .. NDut : X[q][e] # 0} IN IF S = {} THEN 0 ELSE MinOf(S)
X1(q, e) == Pos(tr, x[q][e], e)
(* expected position at DUT d from the hits of row q before DUT d *)
Before(q) == {e \in sel : e < d /\ x[q][e] # 0}
Expected(q) ==
  IF Cardinality(Before(q)) >= 2
  THEN LET e2 == MaxOf(Before(q)) e1 == MaxOf(Before(q) \ {e2}) IN
       X1(q, e2) + ((X1(q, e2) - X1(q, e1)) * (d - e2)) \div (e2 - e1)
  ELSE X1(q, First(x, q))
(* the loop over all other rows; best = [row, dist], dist = -1: no hit *)
RECURSIVE Scan(_, _)
Scan(h, best) ==
  IF h > Len(x) THEN best
  ELSE IF h = cur \/ x[h][d] = 0 THEN Scan(h + 1, best)
  ELSE LET dist == Abs(X1(h, d) - Expected(cur)) IN
       IF best.dist >= 0 /\ best.dist < dist THEN Scan(h + 1, best)
       ELSE IF First(x, h) # d /\ dist > Abs(X1(h, d) - Expected(h)) THEN Scan(h + 1, best)
       ELSE Scan(h + 1, [row |-> h, dist |-> dist])
Best == IF First(x, cur) = 0 \/ First(x, cur) >= d THEN cur
        ELSE Scan(1, [row |-> cur, dist |-> IF x[cur][d] = 0 THEN -1 ELSE Abs(X1(cur, d) - Expected(cur))]).row
Exchange(q, p) == [x EXCEPT ![q][d] = x[p][d], ![p][d] = x[q][d]]
FInit(t, s, y) == tr = t /\ sel = s /\ x0 = y /\ x = y /\ d = 2 /\ r = 1 /\ cur = 1
FDone == d > NDut
NextRow == IF r < Len(x) THEN r' = r + 1 /\ cur' = r + 1 /\ d' = d ELSE r' = 1 /\ cur' = 1 /\ d' = d + 1
Keep == /\ ~FDone /\ Best = cur /\ x' = x /\ NextRow /\ UNCHANGED <<tr, sel, x0>>
Take == /\ ~FDone /\ Best # cur
        /\ x' = Exchange(cur, Best)
        /\ IF cur > Best /\ First(Exchange(cur, Best), Best) # d THEN cur' = Best /\ r' = r /\ d' = d
           ELSE NextRow
        /\ UNCHANGED <<tr, sel, x0>>
FNext == Keep \/ Take
-----------------------------------------------------------------------------
(* C07: only an exchange of rows within each DUT *)
Mult(X, e, h) == Cardinality({q \in DOMAIN X : X[q][e] = h})
Regrouped(X, Y) == \A e \in 1 .. Len(X[1]) : \A q \in DOMAIN X : Mult(X, e, X[q][e]) = Mult(Y, e, X[q][e])
FInv == Regrouped(x0, x)
(* C08: every row holds the hits of one track; hit h of each DUT belongs to track h *)
Pure(X) == \A q \in DOMAIN X : \A e, f \in 1 .. Len(X[q]) : (X[q][e] # 0 /\ X[q][f] # 0) => X[q][e] = X[q][f]
Found == FDone => Pure(x)
=============================================================================
