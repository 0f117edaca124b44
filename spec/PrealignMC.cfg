SPECIFICATION MSpec
CONSTANTS NDuts = 2
INVARIANTS Found Rotations OthersKept ZKept
CHECK_DEADLOCK FALSE
