SPECIFICATION MSpec
CONSTANTS NDuts = 3
 NRows = 5
INVARIANTS Uniform OwnOnly BackAgain
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
