------------------------------- MODULE Correlate -------------------------------
(* Correlation of one reference with several other DUTs (property C06).               *)
(* ev[d] : event numbers of the hits of DUT d (DUT 1 is the reference), bin[d][k] :   *)
(* histogram bin of hit k. The reference is read in chunks aligned at events, for     *)
(* each chunk one job per other DUT is handed to a pool that runs the jobs in any      *)
(* order; a job reads the hits of its DUT in the event range of the chunk and returns  *)
(* the position where it ended.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Chunk
VARIABLES ev, bin,
          rpos,    \* hits of the reference already read
          jobs,    \* per DUT: job of the current chunk [lo, hi: reference hits] or "none"/"done"
          start,   \* per DUT: hits behind this position are read next
          hist     \* per DUT: set of counted pairs <<reference hit, hit>> with multiplicity (function)
cvars == <<ev, bin, rpos, jobs, start, hist>>
Ref == 1
Others == DOMAIN ev \ {1}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Pairs(d) == {p \in (DOMAIN ev[Ref]) \X (DOMAIN ev[d]) : ev[Ref][p[1]] = ev[d][p[2]]}
None == [lo |-> 0, hi |-> 0]
CInit(e, b) == /\ ev = e /\ bin = b /\ rpos = 0 /\ jobs = [d \in DOMAIN e \ {1} |-> None]
               /\ start = [d \in DOMAIN e \ {1} |-> 0]
               /\ hist = [d \in DOMAIN e \ {1} |-> [p \in {} |-> 0]]
(* ends of the chunks that may be read next: whole events, at most Chunk hits, not empty *)
Ends == {k \in rpos + 1 .. Len(ev[Ref]) : k - rpos <= Chunk /\ (k = Len(ev[Ref]) \/ ev[Ref][k + 1] # ev[Ref][k])}
ReadRef == /\ \A d \in Others : jobs[d] = None
           /\ Ends # {}
           /\ jobs' = [d \in Others |-> [lo |-> rpos + 1, hi |-> MaxOf(Ends)]]
           /\ rpos' = MaxOf(Ends)
           /\ UNCHANGED <<ev, bin, start, hist>>
Count(h, S) == [p \in DOMAIN h \cup S |-> (IF p \in DOMAIN h THEN h[p] ELSE 0) + (IF p \in S THEN 1 ELSE 0)]
Job == \E d \in Others :
  /\ jobs[d] # None
  /\ LET j == jobs[d] elo == ev[Ref][j.lo] ehi == ev[Ref][j.hi]
         R == {k \in DOMAIN ev[d] : k > start[d] /\ ev[d][k] >= elo /\ ev[d][k] <= ehi} IN
     /\ hist' = [hist EXCEPT ![d] = Count(@, {p \in (j.lo .. j.hi) \X R : ev[Ref][p[1]] = ev[d][p[2]]})]
     /\ start' = [start EXCEPT ![d] = IF R = {} THEN @ ELSE MaxOf(R)]
     /\ jobs' = [jobs EXCEPT ![d] = None]
  /\ UNCHANGED <<ev, bin, rpos>>
CNext == ReadRef \/ Job
CDone == Ends = {} /\ \A d \in Others : jobs[d] = None
-----------------------------------------------------------------------------
OnlyPairs == \A d \in Others : DOMAIN hist[d] \subseteq Pairs(d)
Once == \A d \in Others : \A p \in DOMAIN hist[d] : hist[d][p] = 1
Complete == CDone => \A d \in Others : DOMAIN hist[d] = Pairs(d)
CInv == OnlyPairs /\ Once /\ Complete
=============================================================================
