------------------------------ MODULE PrealignMC ------------------------------
EXTENDS Prealign, TLC
CONSTANTS NDuts
Ms == {<<1, 0, 0, 1>>, <<-1, 0, 0, -1>>, <<1, 0, 0, -1>>, <<-1, 0, 0, 1>>, <<0, -1, 1, 0>>, <<0, 1, 1, 0>>}
P(m, x, y, z) == [m |-> m, s |-> m[1] * m[4] - m[2] * m[3], t |-> <<x, y, z>>]
Noms == {P(m, x, 0, 7) : m \in {<<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<0, -1, 1, 0>>}, x \in {0, 20}}
FlipsOf(p, x, y) == {[q EXCEPT !.t = <<x, y, @[3]>>] : q \in {p, Flip(p, 1), Flip(p, 2), Flip(Flip(p, 1), 2)}}
Trues(n) == UNION {FlipsOf(n, x, y) : x \in {-10, 0}, y \in {0, 12}}
MInit == \E n1 \in Noms, n2 \in Noms, n3 \in Noms : \E t1 \in Trues(n1), t2 \in Trues(n2) :
           \E S \in {{1, 2, 3}} : PInit(<<n1, n2, n3>>, <<t1, t2, n3>>, S, 3, 1)
MInit2 == \E n1 \in Noms, n3 \in Noms : \E t1 \in Trues(n1) :
           \E S \in {{1}, {1, 2}, {1, 3}} : PInit(<<n1, n1, n3>>, <<t1, t1, n3>>, S, 3, 1)
MSpec == MInit2 /\ [][PNext]_pvars
MSpecBig == MInit /\ [][PNext]_pvars
=============================================================================
