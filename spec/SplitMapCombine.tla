--------------------------- MODULE SplitMapCombine ---------------------------
(* Split-map-combine on a table (property C21): a reader thread hands chunks to a    *)
(* dispatcher, which gives them to a pool of workers and queues the pending results; *)
(* a writer thread stores the results.  Workers finish in any order and may fail.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxCores
VARIABLES n,        \* number of chunks of the table
          cores,    \* size of the pool
          bad,      \* chunks on which the function raises an exception
          rd,       \* chunks read so far
          handed,   \* chunk between reader and dispatcher, 0: none
          resq,     \* submitted, not yet taken by the writer, in order
          cur,      \* chunk the writer waits for, 0: none
          fins,     \* chunks finished by the workers, in order of completion
          out,      \* chunks stored, in order
          failed,   \* an exception occurred
          ended     \* threads which ended
svars == <<n, cores, bad, rd, handed, resq, cur, fins, out, failed, ended>>
Finished == {fins[k] : k \in DOMAIN fins}
Submitted == {out[k] : k \in DOMAIN out} \cup {resq[k] : k \in DOMAIN resq} \cup (IF cur = 0 THEN {} ELSE {cur})
SInit == /\ n \in 0 .. MaxN /\ cores \in 1 .. MaxCores /\ bad \in SUBSET (1 .. n)
         /\ rd = 0 /\ handed = 0 /\ resq = <<>> /\ cur = 0 /\ fins = <<>> /\ out = <<>> /\ failed = FALSE /\ ended = {}
Read == /\ "reader" \notin ended /\ ~failed /\ handed = 0 /\ rd < n
        /\ rd' = rd + 1 /\ handed' = rd + 1 /\ UNCHANGED <<n, cores, bad, resq, cur, fins, out, failed, ended>>
ReaderEnd == /\ "reader" \notin ended /\ (failed \/ (rd = n /\ handed = 0))
             /\ ended' = ended \cup {"reader"} /\ UNCHANGED <<n, cores, bad, rd, handed, resq, cur, fins, out, failed>>
(* with one core the function runs in the dispatcher itself *)
Submit == /\ "dispatcher" \notin ended /\ ~failed /\ handed # 0 /\ Len(resq) < cores + 1
          /\ IF cores = 1
               THEN IF handed \in bad THEN failed' = TRUE /\ UNCHANGED <<fins, resq>>
                                      ELSE resq' = Append(resq, handed) /\ fins' = Append(fins, handed) /\ failed' = failed
               ELSE resq' = Append(resq, handed) /\ UNCHANGED <<fins, failed>>
          /\ handed' = 0 /\ UNCHANGED <<n, cores, bad, rd, cur, out, ended>>
DispatcherEnd == /\ "dispatcher" \notin ended /\ (failed \/ ("reader" \in ended /\ handed = 0))
                 /\ ended' = ended \cup {"dispatcher"} /\ UNCHANGED <<n, cores, bad, rd, handed, resq, cur, fins, out, failed>>
Running == IF cores = 1 THEN {} ELSE
  LET open == {c \in Submitted : c \notin Finished} IN {c \in open : Cardinality({d \in open : d < c}) < cores}
Finish == \E c \in Running : fins' = Append(fins, c) /\ UNCHANGED <<n, cores, bad, rd, handed, resq, cur, out, failed, ended>>
Take == /\ "writer" \notin ended /\ ~failed /\ cur = 0 /\ resq # <<>>
        /\ cur' = Head(resq) /\ resq' = Tail(resq) /\ UNCHANGED <<n, cores, bad, rd, handed, fins, out, failed, ended>>
Write == /\ "writer" \notin ended /\ ~failed /\ cur # 0 /\ cur \in Finished /\ cur \notin bad
         /\ out' = Append(out, cur) /\ cur' = 0 /\ UNCHANGED <<n, cores, bad, rd, handed, resq, fins, failed, ended>>
WriterFails == /\ "writer" \notin ended /\ ~failed /\ cur # 0 /\ cur \in Finished /\ cur \in bad
               /\ failed' = TRUE /\ UNCHANGED <<n, cores, bad, rd, handed, resq, cur, fins, out, ended>>
WriterEnd == /\ "writer" \notin ended /\ (failed \/ ("dispatcher" \in ended /\ resq = <<>> /\ cur = 0))
             /\ ended' = ended \cup {"writer"} /\ UNCHANGED <<n, cores, bad, rd, handed, resq, cur, fins, out, failed>>
Threads == {"reader", "dispatcher", "writer"}
AllEnded == ended = Threads
Done == AllEnded /\ UNCHANGED svars
SNext == Read \/ ReaderEnd \/ Submit \/ DispatcherEnd \/ Finish \/ Take \/ Write \/ WriterFails \/ WriterEnd \/ Done
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)
-----------------------------------------------------------------------------
InOrder == \A k \in DOMAIN out : out[k] = k                    \* stored in input order, each once
Whole == AllEnded /\ ~failed => Len(out) = n /\ bad = {}        \* nothing is silently missing
Reported == AllEnded /\ bad # {} => failed                      \* a failing chunk is reported
NoFalseFailure == failed => bad # {}
Bounded == Len(resq) <= cores + 1
Terminates == <>AllEnded
=============================================================================
