CONSTANTS W = 3
 H = 2
 N = 3
 Frames = {0, 1}
 Charges = {1, 2}
 Dists = {0, 1}
SPECIFICATION Spec
INVARIANT HInv
CHECK_DEADLOCK FALSE
