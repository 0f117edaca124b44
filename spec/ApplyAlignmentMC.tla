--------------------------- MODULE ApplyAlignmentMC ---------------------------
EXTENDS ApplyAlignment
C(f, b) == [fwd |-> f, beam |-> b]
MInit == \E b \in BOOLEAN, n \in {1, 2} : AInit(IF n = 1 THEN <<C(TRUE, b), C(FALSE, b)>> ELSE <<C(FALSE, b), C(TRUE, b), C(TRUE, ~b), C(FALSE, ~b)>>)
MNext == Read \/ ConvertDut \/ Write \/ NextConversion
MSpec == MInit /\ [][MNext]_avars /\ WF_avars(MNext)
Idle == cur[1] = 0 /\ pos = 0
(* whatever the chunks: the same word for every row, made of the own placement and the telescope only *)
Uniform == Idle => \A r \in 1 .. NRows, d \in 1 .. NDuts : cells[r][d] = IF Len(hist) % 2 = 0 THEN <<>> ELSE Ops(hist[Len(hist)], d)
OwnOnly == \A r \in 1 .. NRows, d \in 1 .. NDuts : \A k \in DOMAIN cells[r][d] : cells[r][d][k][1] \in {0, d}
(* there and back again is the identity, for every row and DUT *)
BackAgain == (todo = <<>>) => \A r \in 1 .. NRows, d \in 1 .. NDuts : cells[r][d] = <<>>
Finishes == <>(todo = <<>>)
===============================================================================
