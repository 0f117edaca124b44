---------------------------- MODULE ChunkReaderMC ----------------------------
EXTENDS ChunkReader, TLC
CONSTANTS MaxLen, MaxEv, Chunks
Tables == UNION {{t \in [1 .. n -> 0 .. MaxEv] : \A i \in 1 .. n - 1 : t[i] <= t[i + 1]} : n \in 0 .. MaxLen}
Cfgs(t) == {c \in [startEv : -1 .. MaxEv + 1, stopEv : -1 .. MaxEv + 1, startIdx : 0 .. Len(t), stopIdx : 0 .. Len(t),
                   chunk : Chunks, aligned : BOOLEAN, fail : BOOLEAN, speed : {FALSE}] :
               c.startIdx <= c.stopIdx /\ (c.startEv = -1 \/ c.stopEv = -1 \/ c.startEv <= c.stopEv)}
MCInit == /\ tbl \in Tables /\ cfg \in Cfgs(tbl) /\ pos = -1 /\ out = <<>> /\ st = "seek"
MCSpec == MCInit /\ [][Next]_vars
=============================================================================
