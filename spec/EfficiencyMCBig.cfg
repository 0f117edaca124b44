SPECIFICATION MSpec
CONSTANT N = 4
INVARIANTS Counts NotMore Once Means Regions Starts NoCut Masked
CHECK_DEADLOCK FALSE
