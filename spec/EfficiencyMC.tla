---------------------------- MODULE EfficiencyMC ----------------------------
EXTENDS Efficiency, TLC
CONSTANT N
Cfg(cut, masked) == [size |-> <<4, 4>>, n |-> <<2, 1>>, res |-> <<4, 4>>, ext |-> <<<<>>, <<1>>>>, cut |-> cut, masked |-> masked, mask |-> {<<2, 1>>}, shift |-> <<0, 0>>,
                     regions |-> <<<<<<-4, 0>>, <<-9, 9>>>>, <<<<-3, 3>>, <<-2, 1>>>>>>]
Offs == {<<-1, 1>>, <<3, -1>>, <<-3, 3>>, <<7, 0>>}
Hits == {<<>>, <<-1, 1>>, <<1, 1>>}
Kinds == {[off |-> o, hit |-> h] : o \in Offs, h \in Hits}
MInit == \E n \in 0 .. N : \E R \in [1 .. n -> Kinds], x \in {<<<<<<2>>, <<2>>>>, FALSE>>, <<<<<<2>>, <<2>>>>, TRUE>>, <<<<<<>>, <<>>>>, FALSE>>} : EInit(R, Cfg(x[1], x[2]))
MNext == \E n \in 1 .. N : ReadChunk(n)
MSpec == MInit /\ [][MNext]_evars
Done == SubSeq(rows, 1, pos)
Counts == \A b \in AllBins(cfg) : trk[b] = Cardinality(Tracks(cfg, Done, b)) /\ with[b] = Cardinality(WithHit(cfg, Done, b))
NotMore == \A b \in AllBins(cfg) : with[b] <= trk[b]
(* no track counts twice *)
Once == SumOver(trk, AllBins(cfg)) <= pos
Means == \A b \in AllBins(cfg) : LET x == [i \in DOMAIN Done |-> IF Done[i].hit = <<>> THEN 0 ELSE Res(cfg, Done[i])[1]] IN
           mean[b][1] * with[b] = SumOver(x, WithHit(cfg, Done, b)) * mean[b][2]
Regions == \A g \in DOMAIN reg : LET t == Cardinality(RegTracks(cfg, Done, cfg.regions[g])) IN
             /\ reg[g].stat = t
             /\ reg[g].eff[1] * t = Cardinality(RegHits(cfg, Done, cfg.regions[g])) * reg[g].eff[2]
             /\ reg[g].eff[1] <= reg[g].eff[2]
Starts == started <=> \E i \in DOMAIN Done : Used(cfg, Done[i]) /\ Valid(cfg, Done[i])
NoCut == cfg.cut = <<<<>>, <<>>>> => \A i \in DOMAIN Done : Valid(cfg, Done[i]) <=> Done[i].hit # <<>>
Masked == cfg.masked => with[<<2, 2>>] = 0 /\ trk[<<2, 2>>] = 0
===============================================================================
