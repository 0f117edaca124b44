------------------------------ MODULE HitCheckMC ------------------------------
EXTENDS HitCheck, TLC
CONSTANTS N, E, R
Geo == <<[n |-> 2, lo |-> -4, w |-> 4, min |-> -2, max |-> 2], [n |-> 1, lo |-> -3, w |-> 6, min |-> -1, max |-> 1]>>
Pts == {<<-2, 0>>, <<0, 1>>, <<2, -1>>, <<1, 2>>}
MInit == \E n \in 0 .. N : \E e \in [1 .. n -> 0 .. E], p \in [1 .. n -> Pts], m \in 0 .. R :
           HInit([k \in 1 .. n |-> [ev |-> e[k], q |-> p[k]]], m, Geo)
MRead == \E n \in 1 .. N : ReadOk(n)
MReject == \E n \in 1 .. N : Reject(n)
MSpec == MInit /\ [][MRead \/ MReject]_hvars
(* what was written describes all rows read, whatever the chunks were *)
Events == /\ {evs[k] : k \in DOMAIN evs} = {rows[k].ev : k \in 1 .. pos}
          /\ \A k \in 1 .. Len(evs) - 1 : evs[k] < evs[k + 1]
          /\ deltas = Diffs(evs)
Correlation == \A a \in Axes : \A c \in DOMAIN corr[a] : corr[a][c] = AllCorr(a, c, pos)
(* nothing is passed over in silence *)
Complete == ~err => AllGood(pos)
Rejected == err => ~AllGood(Len(rows))
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumS(f, S \ {x})
SameTotal == SumS(corr[1], DOMAIN corr[1]) = SumS(corr[2], DOMAIN corr[2])
NoRange == range = 0 => tail = <<>>
===============================================================================
