--------------------------- MODULE ChunkReaderEnum ---------------------------
(* Enumerates the inputs of the bounded model for replay into the real reader *)
EXTENDS ChunkReaderMC, Json, IOUtils, SequencesExt
\* tables up to renaming and the configurations the reader's documentation fixes
Inputs == {[tbl |-> t, cfgs |-> SetToSeq({x \in Cfgs(t) : ~Unspecified(t, x)})] : t \in Tables \ {<<>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Inputs))
EInit == tbl = <<>> /\ cfg = [a |-> 0] /\ pos = 0 /\ out = <<>> /\ st = "none"
ESpec == EInit /\ [][FALSE]_vars
=============================================================================
