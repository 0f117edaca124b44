------------------------------ MODULE HitCluster ------------------------------
(* Clustering of the hits of one event (property C03).                               *)
(* hits : sequence of records [c, r, f, q] (column/row or x/y, frame, charge)         *)
(* cfg  : [dc, dr, df: neighbour distances; qmin, qmax: charge range;                 *)
(*         dis, noi: sets of disabled / noisy pixels <<c, r>>]                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES hits, cfg,
          used,      \* hits already looked at
          cur,       \* hits of the growing cluster
          clusters   \* finished clusters: sequence of sets of hit numbers
hvars == <<hits, cfg, used, cur, clusters>>
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Usable(k) == /\ hits[k].q >= cfg.qmin /\ hits[k].q <= cfg.qmax
             /\ <<hits[k].c, hits[k].r>> \notin cfg.dis
Linked(k, l) == /\ Abs(hits[k].c - hits[l].c) <= cfg.dc /\ Abs(hits[k].r - hits[l].r) <= cfg.dr
                /\ Abs(hits[k].f - hits[l].f) <= cfg.df
Noise(C) == Cardinality(C) = 1 /\ \A k \in C : <<hits[k].c, hits[k].r>> \in cfg.noi
HInit(h, g) == hits = h /\ cfg = g /\ used = {} /\ cur = {} /\ clusters = <<>>
Seed == /\ cur = {} /\ used # DOMAIN hits
        /\ LET k == MinOf(DOMAIN hits \ used) IN
           used' = used \cup {k} /\ cur' = IF Usable(k) THEN {k} ELSE {}
        /\ UNCHANGED <<hits, cfg, clusters>>
Near == {k \in DOMAIN hits \ used : Usable(k) /\ \E l \in cur : Linked(k, l)}
Grow == /\ cur # {} /\ Near # {}
        /\ used' = used \cup Near /\ cur' = cur \cup Near /\ UNCHANGED <<hits, cfg, clusters>>
Close == /\ cur # {} /\ Near = {}
         /\ clusters' = (IF Noise(cur) THEN clusters ELSE Append(clusters, cur))
         /\ cur' = {} /\ UNCHANGED <<hits, cfg, used>>
HDone == cur = {} /\ used = DOMAIN hits
HNext == Seed \/ Grow \/ Close
-----------------------------------------------------------------------------
Ok == {k \in DOMAIN hits : Usable(k)}
Members == UNION {clusters[n] : n \in DOMAIN clusters}
Disjoint == \A m, n \in DOMAIN clusters : m # n => clusters[m] \cap clusters[n] = {}
OnlyUsable == Members \subseteq Ok
(* a chain of links between two hits of S: no split of S without a link *)
Connected(S) == \A A \in SUBSET S : (A # {} /\ A # S) => \E k \in A : \E l \in S \ A : Linked(k, l)
EachConnected == \A n \in DOMAIN clusters : Connected(clusters[n])
Maximal == \A n \in DOMAIN clusters : \A k \in clusters[n] : \A l \in Ok \ clusters[n] : ~Linked(k, l)
Complete == HDone => \A k \in Ok \ Members : <<hits[k].c, hits[k].r>> \in cfg.noi /\ \A l \in Ok \ {k} : ~Linked(k, l)
NoLoneNoise == \A n \in DOMAIN clusters : ~Noise(clusters[n])
HInv == Disjoint /\ OnlyUsable /\ EachConnected /\ Maximal /\ Complete /\ NoLoneNoise
=============================================================================
