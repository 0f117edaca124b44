---------------------------- MODULE EventMatchTrace ----------------------------
(* Recordings [a, b, ax, ay, bx, by, r]: results r of all primitives on the same    *)
(* event numbers; ax.. are the histogram bins of the rows.                            *)
EXTENDS EventMatch, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
Load(n) == IF n <= Len(Traces) THEN a' = Traces[n].a /\ b' = Traces[n].b ELSE a' = <<>> /\ b' = <<>>
TInit == MInit(Traces[1].a, Traces[1].b) /\ c = 1
NextCase == /\ c' = c + 1 /\ Load(c + 1) /\ i' = 0 /\ j' = 0 /\ uni' = <<>> /\ com' = <<>> /\ mem' = <<>> /\ prs' = <<>> /\ slot' = <<>>
\* h: sequence of <<bin of b, bin of a, count>>: exactly the pairs' histogram
IsHist(h, fb, fa) ==
  /\ \A k \in DOMAIN h : h[k][3] = Cardinality({p \in DOMAIN prs : fb[prs[p][2]] = h[k][1] /\ fa[prs[p][1]] = h[k][2]})
  /\ Cardinality({<<h[k][1], h[k][2]>> : k \in DOMAIN h}) = Len(h)
  /\ {<<h[k][1], h[k][2]>> : k \in DOMAIN h} = {<<fb[prs[p][2]], fa[prs[p][1]]>> : p \in DOMAIN prs}
Fails == (IF T.r.union # uni THEN {"the union of two event number arrays"} ELSE {})
    \cup (IF T.r.common # com THEN {"the events common to two arrays"} ELSE {})
    \cup (IF T.r.member # mem THEN {"the membership test of sorted event numbers"} ELSE {})
    \cup (IF T.r.merge1 # [k \in DOMAIN prs |-> prs[k][1]] \/ T.r.merge2 # [k \in DOMAIN prs |-> prs[k][2]]
          THEN {"the event merge of two tables"} ELSE {})
    \cup (IF T.r.map # slot THEN {"the mapping of clusters on events"} ELSE {})
    \cup (IF ~IsHist(T.r.hx, T.bx, T.ax) \/ ~IsHist(T.r.hy, T.by, T.ay) THEN {"the in-event position correlation"} ELSE {})
TNext == /\ c <= Len(Traces)
         /\ IF Pending THEN Sweep /\ c' = c
            ELSE /\ IF T.exc # "" THEN PrintT(<<"BAD", T.id, "a primitive failed">>)
                    ELSE \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
                 /\ NextCase
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext \/ TFinal]_<<mvars, c>>
=============================================================================
