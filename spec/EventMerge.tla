------------------------------ MODULE EventMerge ------------------------------
(* Merging of the cluster tables of all DUTs on the event number (property C05).     *)
(* in[d] : sequence of clusters of DUT d, a cluster is a record with field ev;        *)
(* one action per event writes as many rows as the largest number of clusters any     *)
(* DUT has in it.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES in,    \* per DUT: sequence of event numbers of its clusters
          pos,   \* per DUT: number of clusters already merged
          rows   \* output: sequence of [ev, cl], cl[d] = number of the cluster of DUT d, 0: none
gvars == <<in, pos, rows>>
Duts == DOMAIN in
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Mult(d, e) == Cardinality({k \in DOMAIN in[d] : in[d][k] = e})
GInit(x) == in = x /\ pos = [d \in DOMAIN x |-> 0] /\ rows = <<>>
Open == {d \in Duts : pos[d] < Len(in[d])}
MergeEvent ==
  /\ Open # {}
  /\ LET e == MinOf({in[d][pos[d] + 1] : d \in Open})
         m == [d \in Duts |-> Mult(d, e)]
         n == MaxOf({m[d] : d \in Duts}) IN
     /\ rows' = rows \o [k \in 1 .. n |-> [ev |-> e, cl |-> [d \in Duts |-> IF k <= m[d] THEN pos[d] + k ELSE 0]]]
     /\ pos' = [d \in Duts |-> pos[d] + m[d]]
  /\ UNCHANGED in
(* 1, 2, 4, ...: hit flag of a row *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE SumFlags(_, _)
SumFlags(cl, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN
                   (IF cl[d] # 0 THEN Pow2(d - 1) ELSE 0) + SumFlags(cl, D \ {d})
HitFlag(r) == SumFlags(r.cl, DOMAIN r.cl)
-----------------------------------------------------------------------------
RowsOf(e) == {k \in DOMAIN rows : rows[k].ev = e}
Ordered == \A k \in 1 .. Len(rows) - 1 : rows[k].ev <= rows[k + 1].ev
EachOnce == \A d \in Duts : \A q \in 1 .. pos[d] : Cardinality({k \in DOMAIN rows : rows[k].cl[d] = q}) = 1
OwnEvent == \A k \in DOMAIN rows : \A d \in Duts : rows[k].cl[d] # 0 => in[d][rows[k].cl[d]] = rows[k].ev
NoEmptyRow == \A k \in DOMAIN rows : \E d \in Duts : rows[k].cl[d] # 0
FirstRows == \A k, l \in DOMAIN rows : (k < l /\ rows[k].ev = rows[l].ev) =>
               \A d \in Duts : rows[l].cl[d] # 0 => rows[k].cl[d] # 0 /\ rows[k].cl[d] < rows[l].cl[d]
Complete == Open = {} => \A d \in Duts : pos[d] = Len(in[d])
GInv == Ordered /\ EachOnce /\ OwnEvent /\ NoEmptyRow /\ FirstRows /\ Complete
=============================================================================
