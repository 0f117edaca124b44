------------------------------ MODULE ResidualsMC ------------------------------
EXTENDS Residuals, TLC
CONSTANTS N, V
Vals == 0 .. V
Pts == Vals \X {0, V}
Lims == {<<<<<<>>, <<>>>>, <<<<>>, <<>>>>>>, <<<<<<1>>, <<>>>>, <<<<>>, <<1>>>>>>, <<<<<<0>>, <<1>>>>, <<<<1>>, <<>>>>>>}
RowSet == [hit : {<<>>} \cup Pts, off : {<<0, 0>>, <<1, V>>}, ok : BOOLEAN]
Evs(n) == {s \in [1 .. n -> 0 .. 1] : \A k \in 1 .. n - 1 : s[k] <= s[k + 1]}
Eds == {[x |-> <<0, 1, V>>, y |-> <<-1, 0>>, px |-> <<0, 1>>, py |-> <<0, 1, 2>>], [x |-> <<-V, 0, 1>>, y |-> <<0, 1, 2>>, px |-> <<0, 2>>, py |-> <<1, 2>>]}
MInit == \E n \in 0 .. N : \E e \in Evs(n), rs \in [1 .. n -> RowSet], l \in Lims :
           RInit([k \in 1 .. n |-> [ev |-> e[k], hit |-> rs[k].hit, off |-> rs[k].off, ok |-> rs[k].ok]], l)
MSkip == \E n \in 1 .. N : Skip(n)
MFirst == \E n \in 1 .. N, ed \in Eds : First(n, ed)
MMore == \E n \in 1 .. N : More(n)
MNext == MSkip \/ MFirst \/ MMore
MSpec == MInit /\ [][MNext]_rvars
(* whatever the chunks were: the counts of the rows read so far, each once *)
OnceEach == edges # <<>> => \A h \in Kinds : \A c \in DOMAIN hist[h] : hist[h][c] = Count(h, edges[1], 1 .. pos, c)
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumS(f, S \ {x})
Total == edges # <<>> => \A h \in Kinds : SumS(hist[h], DOMAIN hist[h]) = Cardinality({k \in 1 .. pos : Cell(h, edges[1], rows[k]) # <<0, 0>>})
(* without limits the position axis only hides what is outside of its range *)
Project == edges # <<>> /\ (\A a \in 1 .. 2 : lim[a] = <<<<>>, <<>>>>) =>
           \A h \in {"xx", "xy"} : \A b \in 1 .. Len(edges[1].x) - 1 :
             SumS([p \in 1 .. Len(PosEdges(h, edges[1])) - 1 |-> hist[h][<<p, b>>]], 1 .. Len(PosEdges(h, edges[1])) - 1) <= hist["x"][<<1, b>>]
NoneOnly == pos = Len(rows) /\ edges = <<>> => \A k \in DOMAIN rows : ~Usable(rows[k])
===============================================================================
