SPECIFICATION MSpec
CONSTANTS HitSets <- HitSetsFew
 Mins = {0, 2}
 Needs = {2}
INVARIANTS Selected Rejected Excluded Disjoint
CHECK_DEADLOCK FALSE
