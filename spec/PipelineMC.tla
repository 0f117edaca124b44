------------------------------ MODULE PipelineMC ------------------------------
EXTENDS Pipeline, TLC
CONSTANTS N, E, HitChoice
AllHits == SUBSET D \ {{}}
FewHits == {h \in SUBSET D : {1, 2} \subseteq h \/ h = {2} \/ h = {1, 3}}
Conf(d, b, ex, sh, sn) == [dut |-> d, fit |-> D, hits |-> IF b THEN {1} ELSE {}, min |-> 2, excl |-> ex, shit |-> sh, snohit |-> sn]
Confs == { <<Conf(1, FALSE, TRUE, {}, {}), Conf(3, TRUE, FALSE, {2}, {})>>, <<Conf(2, FALSE, TRUE, {2}, {3}), Conf(3, FALSE, FALSE, {}, {})>> }
TruthSet == UNION {{[k \in 1 .. n |-> [ev |-> f[k], hits |-> h[k]]] : f \in {g \in [1 .. n -> 0 .. E] : \A k \in 1 .. n - 1 : g[k] <= g[k + 1]}, h \in [1 .. n -> HitChoice]} : n \in 1 .. N}
OrderOf(tr, d) == {f \in Perms({k \in DOMAIN tr : d \in tr[k].hits}) : \A a, b \in DOMAIN f : a < b => tr[f[a]].ev <= tr[f[b]].ev}
MInit == \E tr \in TruthSet : \E cf \in Confs : \E cl \in [D -> UNION {OrderOf(tr, d) : d \in D}] :
            (\A d \in D : cl[d] \in OrderOf(tr, d)) /\ PInit(tr, cf, cl)
MMerge == stage = 1 /\ \E e \in TEvents : Step(e)
MFind == stage = 2 /\ \E e \in TEvents : Step(e)
MFit == stage = 3 /\ \E e \in TEvents : Step(e)
MSelect == stage = 4 /\ \E e \in TEvents : Step(e)
MCount == stage = 5 /\ \E e \in TEvents : Step(e)
MNext == MMerge \/ MFind \/ MFit \/ MSelect \/ MCount
MSpec == MInit /\ [][MNext]_pvars /\ WF_pvars(MNext)
Ends == <>(stage = 6)
===============================================================================
