------------------------------ MODULE AlignmentMC ------------------------------
EXTENDS Alignment, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxChunks
VARIABLE nch
mvars == <<avars, nch>>
In == [d \in 1 .. 3 |-> <<d, -d, 10 * d, 0, 1, 2>>]
Old == [d \in 1 .. 3 |-> <<7, 7, 7, d, d, d>>]
Tr == [d \in 1 .. 3 |-> <<d + 3, 2, 10 * d - 1, 4, -1, 2>>]
GroupSets == {<<<<1>>>>, <<<<2, 3>>>>, <<<<1>>, <<3>>>>, <<<<3>>, <<1, 2>>>>}
ParSets == {{1}, {3, 6}, Par, {1, 2, 4, 5, 6}, {}}
MInit == \E e \in {<<>>, Old}, gs \in GroupSets, p, q \in ParSets :
           AInit(In, e, Tr, gs, [k \in DOMAIN gs |-> [j \in DOMAIN gs[k] |-> IF (k + j) % 2 = 0 THEN p ELSE q]]) /\ nch = 0
MPrepare == Prepare /\ UNCHANGED nch
MChunk == nch < MaxChunks /\ nch' = nch + 1 /\ \E n \in 0 .. 2 : Chunk(n)
MStore == nch > 0 /\ nch' = 0 /\ Store
MNoTracks == nch > 0 /\ nch' = 0 /\ NoTracks
MSave == Save /\ UNCHANGED nch
MNext == MPrepare \/ MChunk \/ MStore \/ MNoTracks \/ MSave
MSpec == MInit /\ [][MNext]_mvars
(* the file is what was asked for, group by group; a failure leaves the last state *)
FileOk == g > 0 => file = After(g - 1)
InputKept == inp = In
Untouched == g > 0 => \A d \in DOMAIN inp : d \notin Selected => mem[d] = Base[d]
UnselectedKept == g > 0 => \A d \in Selected : \A p6 \in Par : p6 \notin ParsOf(d) => mem[d][p6] = inp[d][p6]
Recovered == g > Len(groups) => \A d \in Selected : \A p6 \in ParsOf(d) : file[d][p6] = truth[d][p6]
Before == g = 0 => file = exist
(* cases for the replay: parameters to align, which angles are zero, usable tracks of the chunks *)
ESpec == AInit(In, <<>>, Tr, <<>>, <<>>) /\ nch = 0 /\ [][FALSE]_mvars
Zero == {<<0, 0, 0>>, <<1, 1, 1>>, <<1, 1, 0>>}
Patterns == UNION {[1 .. n -> {0, 9}] : n \in 1 .. MaxChunks}
Cases == {[pars |-> SetToSeq(x[1]), zero |-> x[2], use |-> x[3]] : x \in
   {y \in (SUBSET Par) \X Zero \X Patterns : Faithful(y[1], <<0, 0, 0>> \o y[2])
      /\ ((Cardinality(y[1]) \in {3, 5, 6} \/ y[1] = {1, 2}) \/ y[3] \in {<<9>>, <<9, 0>>, <<0, 9>>})}}
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===============================================================================
