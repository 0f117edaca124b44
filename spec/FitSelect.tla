------------------------------ MODULE FitSelect ------------------------------
(* Track fitting for several DUTs (property C09): which candidates are stored for which *)
(* DUT, fitted with which hits. DUTs with the same effective settings share one pass.    *)
(* rows[r] = <<event, DUTs with a hit>>; conf[k] = settings of the k-th selected DUT:    *)
(* dut, fit (DUTs to fit), hits (required DUTs), min (0: all), excl (own hit excluded)    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows, conf,
          need,    \* hits needed by the method
          g,       \* leader of the present group, 0: none
          pos,     \* rows read in the present pass
          fitted,  \* selected DUTs that are done
          out,     \* stored rows of each selected DUT
          used,    \* DUTs whose hits were used
          err
svars == <<rows, conf, need, g, pos, fitted, out, used, err>>
Confs == DOMAIN conf
Eff(c) == IF c.excl THEN c.fit \ {c.dut} ELSE c.fit
MinHits(c) == IF c.min = 0 THEN Cardinality(Eff(c)) ELSE c.min
Valid(c) == MinHits(c) >= 2 /\ MinHits(c) <= Cardinality(Eff(c))
SameFit(c, b) == Eff(c) = Eff(b) /\ c.hits = b.hits /\ c.min = b.min
NHits(c, row) == Cardinality(row[2] \cap Eff(c))
Fitted(c, row, n) == NHits(c, row) >= n
Admits(c, row, n) == c.hits \subseteq row[2] /\ NHits(c, row) >= MinHits(c) /\ NHits(c, row) >= n
Boundary(e) == e = Len(rows) \/ (e < Len(rows) /\ rows[e][1] # rows[e + 1][1])
RECURSIVE Kept(_, _, _)    \* numbers of the admitted rows from a to b
Kept(c, a, b) == IF a > b THEN <<>> ELSE (IF Admits(c, rows[a], need) THEN <<a>> ELSE <<>>) \o Kept(c, a + 1, b)
Group == {k \in Confs : k = g \/ SameFit(conf[k], conf[g])}
SInit(rr, cc, n) == rows = rr /\ conf = cc /\ need = n /\ g = 0 /\ pos = 0 /\ fitted = {} /\ err = FALSE
                 /\ out = [k \in DOMAIN cc |-> <<>>] /\ used = [k \in DOMAIN cc |-> {}]
Open == {k \in Confs : k \notin fitted}
SDone == err \/ (g = 0 /\ Open = {})
Start == /\ ~SDone /\ g = 0
         /\ LET k == CHOOSE k \in Open : \A j \in Open : k <= j IN
            IF Valid(conf[k]) THEN g' = k /\ pos' = 0 /\ err' = err ELSE err' = TRUE /\ UNCHANGED <<g, pos>>
         /\ UNCHANGED <<rows, conf, need, fitted, out, used>>
Chunk == \E e \in pos + 1 .. Len(rows) :
         /\ ~err /\ g # 0 /\ Boundary(e)
         /\ out' = [k \in Confs |-> IF k \in Group THEN out[k] \o Kept(conf[g], pos + 1, e) ELSE out[k]]
         /\ used' = [k \in Confs |-> IF k \in Group THEN Eff(conf[g]) ELSE used[k]]
         /\ pos' = e
         /\ UNCHANGED <<rows, conf, need, g, fitted, err>>
Finish == /\ g # 0 /\ pos = Len(rows) /\ fitted' = fitted \cup Group /\ g' = 0
          /\ UNCHANGED <<rows, conf, need, pos, out, used, err>>
SNext == Start \/ Chunk \/ Finish
-----------------------------------------------------------------------------
Selected == SDone /\ ~err => \A k \in Confs : out[k] = Kept(conf[k], 1, Len(rows)) /\ used[k] = Eff(conf[k])
Rejected == SDone => err = (\E k \in Confs : ~Valid(conf[k]))
Excluded == \A k \in Confs : conf[k].excl => conf[k].dut \notin used[k]
Disjoint == g # 0 => Group \cap fitted = {}
=============================================================================
