----------------------------- MODULE SelectTracks -----------------------------
(* Selection of tracks (property C13). A track has a hit flag, a quality flag, an         *)
(* isolated track flag and an isolated hit flag per DUT (as sets of DUTs), and columns a  *)
(* query refers to. The table is read chunk by chunk; each chunk passes the filters one    *)
(* after the other, using bit masks.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
(* q: <<>> (no query) or alternatives of conjunctions of atoms <<column, relation, 2 * value>> *)
NaV == -999999
Rel(a, op, b) == CASE op = 1 -> a < b [] op = 2 -> a <= b [] op = 3 -> a > b [] op = 4 -> a >= b [] op = 5 -> a = b [] op = 6 -> a # b
Atom(v, a) == IF v[a[1]] = NaV THEN a[2] = 6 ELSE Rel(2 * v[a[1]], a[2], a[3])
Query(v, q) == q = <<>> \/ \E k \in DOMAIN q : \A j \in DOMAIN q[k] : Atom(v, q[k][j])
(* what is to be selected: c = [hit, nohit, qual, itrk, ihit: sets of DUTs, q: query]      *)
Wanted(t, c) == /\ \A d \in c.hit : d \in t.hit
                /\ \A d \in c.nohit : d \notin t.hit
                /\ \A d \in c.qual : d \in t.hit => d \in t.qual
                /\ \A d \in c.itrk : d \in t.itrk
                /\ \A d \in c.ihit : d \in t.hit => d \in t.ihit
                /\ Query(t.v, c.q)
Conflict(c) == c.hit \cap c.nohit # {}
-----------------------------------------------------------------------------
VARIABLES tab, conf, pos, out
svars == <<tab, conf, pos, out>>
(* the filters, with masks *)
HitF(t, c) == (t.hit \cap c.hit) = c.hit /\ (c.nohit \ t.hit) = c.nohit
QualF(t, c) == LET m == c.qual \cap t.hit IN (t.qual \cap m) = m
ITrkF(t, c) == (t.itrk \cap c.itrk) = c.itrk
IHitF(t, c) == LET m == c.ihit \cap t.hit IN (t.ihit \cap m) = m
RECURSIVE Pick(_, _, _, _)
Pick(tb, c, a, b) == IF a > b THEN <<>> ELSE
  (IF HitF(tb[a], c) /\ QualF(tb[a], c) /\ ITrkF(tb[a], c) /\ IHitF(tb[a], c) /\ Query(tb[a].v, c.q) THEN <<a>> ELSE <<>>) \o Pick(tb, c, a + 1, b)
SInit(TT, CC) == tab \in TT /\ conf \in CC /\ pos = 0 /\ out = <<>>
ReadChunk == ~Conflict(conf) /\ \E hi \in pos + 1 .. Len(tab) : out' = out \o Pick(tab, conf, pos + 1, hi) /\ pos' = hi /\ UNCHANGED <<tab, conf>>
SNext == ReadChunk
Exact == ~Conflict(conf) => \A k \in 1 .. pos : (\E j \in DOMAIN out : out[j] = k) = Wanted(tab[k], conf)
OrderOnce == \A j \in DOMAIN out : out[j] \in 1 .. pos /\ (j > 1 => out[j - 1] < out[j])
Refused == Conflict(conf) => out = <<>>
(* with nothing requested, everything is selected *)
NoCut == conf.hit = {} /\ conf.nohit = {} /\ conf.qual = {} /\ conf.itrk = {} /\ conf.ihit = {} /\ conf.q = <<>> => Len(out) = pos
=============================================================================
