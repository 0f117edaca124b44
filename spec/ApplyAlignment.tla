---------------------------- MODULE ApplyAlignment ----------------------------
(* Applying the alignment to a table (property C20), chunk by chunk and DUT by DUT.   *)
(* What matters is which placements act on a cell and in which order: a cell holds    *)
(* the word of the transformations applied to it, <<who, dir>> with who = 0 for the   *)
(* telescope and d for DUT d; neighbouring inverse transformations cancel.            *)
EXTENDS Integers, Sequences
CONSTANTS NDuts, NRows
VARIABLES cells,   \* [row -> [dut -> word]]
          todo,    \* conversions still to do: sequence of [fwd, beam]
          pos,     \* rows already written in the current conversion
          cur,     \* first row of the chunk, last row, next DUT; <<0, 0, 0>>: no chunk read
          hist     \* conversions finished
avars == <<cells, todo, pos, cur, hist>>
Append1(w, op) == IF w # <<>> /\ w[Len(w)][1] = op[1] /\ w[Len(w)][2] # op[2] THEN SubSeq(w, 1, Len(w) - 1) ELSE Append(w, op)
RECURSIVE AppendAll(_, _)
AppendAll(w, ops) == IF ops = <<>> THEN w ELSE AppendAll(Append1(w, Head(ops)), Tail(ops))
(* local to global: the DUT first, then the telescope; global to local the other way round *)
Ops(conv, d) == IF conv.fwd THEN <<<<d, 1>>>> \o (IF conv.beam THEN <<<<0, 1>>>> ELSE <<>>)
                ELSE (IF conv.beam THEN <<<<0, -1>>>> ELSE <<>>) \o <<<<d, -1>>>>
AInit(convs) == /\ cells = [r \in 1 .. NRows |-> [d \in 1 .. NDuts |-> <<>>]]
                /\ todo = convs /\ pos = 0 /\ cur = <<0, 0, 0>> /\ hist = <<>>
Read == /\ todo # <<>> /\ cur[1] = 0 /\ pos < NRows
        /\ \E n \in 1 .. (NRows - pos) : cur' = <<pos + 1, pos + n, 1>>
        /\ UNCHANGED <<cells, todo, pos, hist>>
ConvertDut == /\ cur[1] > 0 /\ cur[3] <= NDuts
              /\ cells' = [r \in 1 .. NRows |-> IF r >= cur[1] /\ r <= cur[2]
                             THEN [cells[r] EXCEPT ![cur[3]] = AppendAll(@, Ops(Head(todo), cur[3]))] ELSE cells[r]]
              /\ cur' = [cur EXCEPT ![3] = @ + 1]
              /\ UNCHANGED <<todo, pos, hist>>
Write == /\ cur[1] > 0 /\ cur[3] > NDuts /\ pos' = cur[2] /\ cur' = <<0, 0, 0>> /\ UNCHANGED <<cells, todo, hist>>
NextConversion == /\ todo # <<>> /\ cur[1] = 0 /\ pos = NRows
                  /\ hist' = Append(hist, Head(todo)) /\ todo' = Tail(todo) /\ pos' = 0 /\ UNCHANGED <<cells, cur>>
===============================================================================
