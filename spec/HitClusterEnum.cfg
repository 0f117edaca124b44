CONSTANTS W = 3
 H = 3
 N = 3
 Frames = {0}
 Charges = {2}
 Dists = {1}
SPECIFICATION Spec
INVARIANT HInv
CHECK_DEADLOCK FALSE
