----------------------------- MODULE TrackFlagsMC -----------------------------
EXTENDS TrackFlags
CONSTANTS MaxLen, Xs, Ys
Dists == {<<>>, <<0, 0>>, <<3, 0>>, <<3, 3>>, <<3, 5>>}
Seqs(n) == {e \in [1 .. n -> 0 .. 1] : \A k \in 1 .. n - 1 : e[k] <= e[k + 1]}
Pos == {<<>>} \cup (Xs \X Ys)
FIn == \E n \in 0 .. MaxLen : \E e \in Seqs(n) : \E p \in [1 .. n -> Pos] : \E D \in Dists, b \in BOOLEAN :
   FInit([k \in 1 .. n |-> <<e[k]>> \o p[k]], D, b)
FSpec == FIn /\ [][FNext]_fvars
=============================================================================
