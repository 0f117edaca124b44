------------------------------ MODULE ChunkReader ------------------------------
(* Event-aligned chunked reading of an event-ordered table (property C01).          *)
(*                                                                                  *)
(* tbl  : sequence of event numbers, non-decreasing; row i of the table is i-1.     *)
(* cfg  : [startEv, stopEv (-1: none), startIdx, stopIdx (0-based, stop exclusive), *)
(*         chunk, aligned, fail, speed]                                             *)
(* The reader first seeks the begin of the requested range, then hands out chunks   *)
(* [pos, hi) until the end of the range; where a chunk ends inside the range is the *)
(* reader's choice as long as it ends at an event boundary.                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tbl, cfg, pos, out, st
vars == <<tbl, cfg, pos, out, st>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Ev(t, i) == t[i + 1]                              \* event number of row i
Rows(t) == 0 .. Len(t) - 1
InIdx(t, c) == {i \in Rows(t) : c.startIdx <= i /\ i < c.stopIdx}
\* number of rows of event e inside of the index range
Mult(t, c, e) == Cardinality({i \in InIdx(t, c) : Ev(t, i) = e})
IsBoundary(t, i) == IF i = 0 \/ i = Len(t) THEN TRUE ELSE Ev(t, i - 1) # Ev(t, i)
FirstOr(S, d) == IF S = {} THEN d ELSE CHOOSE i \in S : \A j \in S : i <= j

(* End of the requested range. A stop index inside of the table may cut the last    *)
(* event, therefore the event of the last row before it is left out; a stop event   *)
(* number selects all events below it.                                              *)
RangeEnd(t, c) ==
  LET idx == InIdx(t, c)
      above == {i \in idx : c.stopEv # -1 /\ Ev(t, i) >= c.stopEv} IN
  IF idx = {} THEN Min2(c.startIdx, c.stopIdx)
  ELSE IF above # {} THEN FirstOr(above, 0)
  ELSE IF c.stopIdx = Len(t) THEN Len(t)
  ELSE FirstOr({i \in idx : Ev(t, i) = Ev(t, c.stopIdx - 1)}, 0)

(* Begin of the requested range: first row of the index range with an event number  *)
(* not below the start event number; if the start index may point into an event     *)
(* (aligned = FALSE), the first event of the index range is left out.               *)
RangeBegin(t, c) ==
  LET idx == InIdx(t, c)
      cand == {i \in idx : /\ (c.startEv # -1 => Ev(t, i) >= c.startEv)
                           /\ ((~c.aligned /\ c.startIdx # 0) => Ev(t, i) # Ev(t, c.startIdx))} IN
  Min2(FirstOr(cand, c.stopIdx), Max2(RangeEnd(t, c), c.startIdx))

(* the start event number is not part of the data *)
StartMissing(t, c) == /\ c.startEv # -1
                      /\ ~ \E i \in InIdx(t, c) : Ev(t, i) = c.startEv
\* ... the data (index range) starts behind it
StartBefore(t, c) == StartMissing(t, c) /\ InIdx(t, c) # {} /\ Ev(t, c.startIdx) > c.startEv
\* ... or it may be incomplete as the data starts with it at an unaligned index
StartCut(t, c) == c.startEv # -1 /\ ~c.aligned /\ c.startIdx # 0 /\ InIdx(t, c) # {} /\ Ev(t, c.startIdx) = c.startEv
MissingErrorAllowed(t, c) == c.fail /\ (StartMissing(t, c) \/ StartCut(t, c))
MissingErrorRequired(t, c) == c.fail /\ ~c.speed /\ (StartBefore(t, c) \/ StartCut(t, c))

(* an event that does not fit into one chunk: an event with as many rows as the     *)
(* chunk may be refused, one with more rows must be                                  *)
TooLargeAllowed(t, c) == \E i \in InIdx(t, c) : Mult(t, c, Ev(t, i)) >= c.chunk
(* Unaligned start in front of a missing start event: documentation leaves open      *)
(* whether the first event behind the start event is read.                           *)
Unspecified(t, c) == ~c.aligned /\ c.startIdx # 0 /\ StartMissing(t, c)

-----------------------------------------------------------------------------
Init(T, C) == tbl \in T /\ cfg \in C /\ pos = -1 /\ out = <<>> /\ st = "seek"

Seek == /\ st = "seek"
        /\ ~MissingErrorRequired(tbl, cfg)
        /\ pos' = RangeBegin(tbl, cfg)
        /\ st' = "read"
        /\ UNCHANGED <<tbl, cfg, out>>

SeekFails == /\ st = "seek"
             /\ MissingErrorAllowed(tbl, cfg)
             /\ st' = "error" /\ UNCHANGED <<tbl, cfg, pos, out>>

(* hand out rows [pos, hi) *)
Read(hi) == /\ st = "read"
            /\ pos < hi /\ hi <= RangeEnd(tbl, cfg)
            /\ hi - pos <= cfg.chunk
            /\ IsBoundary(tbl, hi)
            /\ out' = Append(out, <<pos, hi>>)
            /\ pos' = hi
            /\ UNCHANGED <<tbl, cfg, st>>

Finish == /\ st = "read" /\ pos >= RangeEnd(tbl, cfg)
          /\ st' = "done" /\ UNCHANGED <<tbl, cfg, pos, out>>

TooLarge == /\ st \in {"seek", "read"}
            /\ TooLargeAllowed(tbl, cfg)
            /\ st' = "error" /\ UNCHANGED <<tbl, cfg, pos, out>>

ReadSome == \E hi \in 1 .. Len(tbl) : Read(hi)
Next == Seek \/ SeekFails \/ ReadSome \/ Finish \/ TooLarge

-----------------------------------------------------------------------------
(* The properties, stated without reference to the reader's actions *)
Wanted == {i \in InIdx(tbl, cfg) :
              /\ cfg.startEv = -1 \/ Ev(tbl, i) >= cfg.startEv
              /\ cfg.stopEv = -1 \/ Ev(tbl, i) < cfg.stopEv
              /\ ~(cfg.startIdx # 0 /\ ~cfg.aligned /\ Ev(tbl, i) = Ev(tbl, cfg.startIdx))
              /\ \/ cfg.stopIdx = Len(tbl)
                 \/ \E j \in InIdx(tbl, cfg) : Ev(tbl, j) > Ev(tbl, i)}
Emitted == UNION {out[k][1] .. out[k][2] - 1 : k \in DOMAIN out}

CoversExactly == st = "done" => Emitted = Wanted
OnlyWanted == Emitted \subseteq Wanted
InOrderOnce == \A k \in DOMAIN out : /\ out[k][1] < out[k][2]
                                     /\ k > 1 => out[k][1] = out[k - 1][2]
NotTooBig == \A k \in DOMAIN out : out[k][2] - out[k][1] <= cfg.chunk
EventsWhole == \A k \in DOMAIN out : \A i, j \in InIdx(tbl, cfg) :
    (Ev(tbl, i) = Ev(tbl, j) /\ out[k][1] <= i /\ i < out[k][2]) => (out[k][1] <= j /\ j < out[k][2])
\* an event of the range larger than a chunk can only end in an error
NeverSilent == st = "done" => \A i \in Wanted : Mult(tbl, cfg, Ev(tbl, i)) <= cfg.chunk
\* the reader can always go on
Progress == st \in {"done", "error"} \/ ENABLED Next
Inv == CoversExactly /\ OnlyWanted /\ InOrderOnce /\ NotTooBig /\ EventsWhole /\ NeverSilent /\ Progress
=============================================================================
