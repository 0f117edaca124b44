SPECIFICATION MSpecBig
CONSTANTS NDuts = 3
INVARIANTS Found Rotations OthersKept ZKept
CHECK_DEADLOCK FALSE
