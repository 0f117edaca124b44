------------------------------- MODULE Readout -------------------------------
(* Conversion of a readout system's interpreted hit table into one hit table per plane      *)
(* (property C25). A hit is [p: plane, ev, t: time stamp, c: column, r: row, q: charge].     *)
(* The table is read in chunks. Before a chunk is stored its event numbers are compared with *)
(* each other and with the last event number of the chunk before (0 for the first).          *)
EXTENDS Integers, Sequences
VARIABLES hits, planes, kind, pos, last, outs, status
rvars == <<hits, planes, kind, pos, last, outs, status>>
(* kind "fei4": one plane, everything is kept; "mimosa": planes are separated, columns and   *)
(* rows are counted from 1, neither time stamp nor charge exist                              *)
Conv(k, h) == IF k = "fei4" THEN <<h.ev, h.t, h.c, h.r, h.q>> ELSE <<h.ev, 0, h.c + 1, h.r + 1, 0>>
Mine(k, P, i, h) == k = "fei4" \/ h.p = P[i]
(* rows of plane i from a sequence of hits *)
Rows(k, P, i, s) == LET t == SelectSeq(s, LAMBDA h : Mine(k, P, i, h)) IN [q \in DOMAIN t |-> Conv(k, t[q])]
Rising(s, from) == \A q \in DOMAIN s : s[q].ev >= (IF q = 1 THEN from ELSE s[q - 1].ev)
RInit(H, PP(_), K) == /\ hits \in H /\ kind \in K /\ planes \in PP(kind) /\ pos = 0 /\ last = 0
                   /\ outs = [i \in DOMAIN planes |-> <<>>] /\ status = "run"
StoreChunk == /\ status = "run" /\ pos < Len(hits)
              /\ \E hi \in pos + 1 .. Len(hits) : LET ch == SubSeq(hits, pos + 1, hi) IN
                   /\ Rising(ch, last)
                   /\ outs' = [i \in DOMAIN outs |-> outs[i] \o Rows(kind, planes, i, ch)]
                   /\ last' = ch[Len(ch)].ev /\ pos' = hi
              /\ UNCHANGED <<hits, planes, kind, status>>
RejectChunk == /\ status = "run" /\ pos < Len(hits)
               /\ \E hi \in pos + 1 .. Len(hits) : ~Rising(SubSeq(hits, pos + 1, hi), last)
               /\ status' = "rejected" /\ UNCHANGED <<hits, planes, kind, pos, last, outs>>
Finish == /\ status = "run" /\ pos = Len(hits) /\ status' = "done" /\ UNCHANGED <<hits, planes, kind, pos, last, outs>>
RNext == StoreChunk \/ RejectChunk \/ Finish
-----------------------------------------------------------------------------
(* what a user relies on *)
Wanted(k, P, H) == [i \in DOMAIN P |-> Rows(k, P, i, H)]
Prefix(s, t) == Len(s) <= Len(t) /\ \A q \in DOMAIN s : s[q] = t[q]
Complete == status = "done" => outs = Wanted(kind, planes, hits)
OnlyValid == status = "done" => Rising(hits, 0)
Rejected == status = "rejected" => ~Rising(hits, 0)
NothingElse == \A i \in DOMAIN planes : Prefix(outs[i], Rows(kind, planes, i, hits))
Sorted == \A i \in DOMAIN outs : \A q \in 2 .. Len(outs[i]) : outs[i][q - 1][1] <= outs[i][q][1]
(* every hit of a converted plane is in exactly one file *)
RECURSIVE Sum(_, _)
Sum(o, i) == IF i = 0 THEN 0 ELSE Len(o[i]) + Sum(o, i - 1)
Once == (status = "done" /\ \A a, b \in DOMAIN planes : planes[a] = planes[b] => a = b) =>
          Sum(outs, Len(outs)) = Len(SelectSeq(hits, LAMBDA h : \E i \in DOMAIN planes : Mine(kind, planes, i, h)))
=============================================================================
