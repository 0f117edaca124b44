SPECIFICATION MSpec
CONSTANTS NDuts = 2
 NRows = 3
INVARIANTS Uniform OwnOnly BackAgain
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
