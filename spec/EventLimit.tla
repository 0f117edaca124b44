------------------------------ MODULE EventLimit ------------------------------
(* Limit on the number of events (property C14). A table is processed chunk by chunk;     *)
(* ch[k] = number of events of chunk k that are available (some events may have been       *)
(* removed by a selection), rw[k] = number of rows of chunk k. The number of events taken  *)
(* from a chunk is a quota proportional to its rows, corrected for what was stored so far. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ch, rw, lim, k, kept
evars == <<ch, rw, lim, k, kept>>
MinE(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Total == SumTo(rw, Len(rw))
Stored == SumTo(kept, Len(kept))
(* rounding of a/b (b > 0); both neighbours if in the middle (floating point) *)
Rounded(a, b) == LET f == a \div b r == 2 * (a % b) IN IF r < b THEN {f} ELSE IF r > b THEN {f + 1} ELSE {f, f + 1}
(* quota of chunk j: limit * (rows / total) * correction, where the correction is            *)
(*   (fraction of the rows behind this chunk) * (free part of the limit) / (fraction of the  *)
(*   rows behind the previous chunk) + (fraction up to this chunk) * (used part of the       *)
(*   limit) / (fraction up to the previous chunk)                                            *)
Quota(j) ==
  LET T == Total i == SumTo(rw, j) l == SumTo(rw, j - 1) s == Stored IN
  IF j = Len(ch) THEN {lim - s}
  ELSE IF s = 0 THEN Rounded(lim * rw[j], T)
  ELSE \* lim * rw/T * ((T-i) (lim-s) / (lim (T-l)) + i s / (lim l)) = rw ((T-i)(lim-s) l + i s (T-l)) / (T (T-l) l)
       Rounded(rw[j] * ((T - i) * (lim - s) * l + i * s * (T - l)), T * (T - l) * l)
EInit(CC, N) == ch \in CC /\ rw = ch /\ lim \in N /\ k = 1 /\ kept = <<>>
EInitRows(CC, RR, N) == ch \in CC /\ rw \in RR /\ Len(rw) = Len(ch) /\ (\A q \in DOMAIN ch : ch[q] <= rw[q]) /\ lim \in N /\ k = 1 /\ kept = <<>>
Take == /\ k <= Len(ch)
        /\ \E q \in Quota(k) : kept' = Append(kept, MinE(ch[k], MinE(q, lim - Stored)))
        /\ k' = k + 1 /\ UNCHANGED <<ch, rw, lim>>
ENext == Take
EDone == k > Len(ch)
(* the limit is never exceeded, and no chunk gives more than it has *)
AtMost == Stored <= lim /\ \A j \in DOMAIN kept : kept[j] >= 0 /\ kept[j] <= ch[j]
(* one chunk: exactly *)
OneChunk == EDone /\ Len(ch) = 1 => Stored = MinE(lim, ch[1])
(* if the limit is not reached, everything of the last chunk is stored *)
LastFull == EDone /\ Stored < lim => kept[Len(ch)] = ch[Len(ch)]
(* events of equal size, nothing removed before: *)
Uniform == \A j \in DOMAIN ch : rw[j] = ch[j]
(* ... nothing is dropped if the limit is not below the number of events *)
NothingLost == EDone /\ Uniform /\ lim >= Total => kept = ch
(* NOT guaranteed (TLC: chunks of 2, 4, 1 events and limit 5 give 4): the limit is reached *)
Reached == EDone /\ Uniform => Stored = MinE(lim, Total)
(* ... and if the chunks are of equal size and their share is at least one event, the stored events are spread over  *)
(* the table: each chunk gives its share up to a factor of two, unless the limit is reached before (errors of rounding *)
(* add up: 8 events of 3, 3, 3, 3, 3, 1 are taken as 2, 2, 2, 2, 0, 0; with very different chunks, the correction      *)
(* amplifies deviations: 7 events of 1, 4, 4, 4 as 1, 3, 3, 0).                                                        *)
Equal == lim * ch[1] >= Total /\ \A j \in 1 .. Len(ch) - 1 : ch[j] = ch[1] /\ ch[Len(ch)] <= ch[1]
Spread == Uniform /\ Equal /\ lim <= Total => \A j \in DOMAIN kept : j < Len(ch) =>
   kept[j] * Total <= 2 * lim * ch[j] /\ (SumTo(kept, j) < lim => 2 * kept[j] * Total >= lim * ch[j])
=============================================================================
