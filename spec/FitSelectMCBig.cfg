SPECIFICATION MSpec
CONSTANTS HitSets <- HitSetsAll
 Mins = {0, 2, 3}
 Needs = {2, 3}
INVARIANTS Selected Rejected Excluded Disjoint
CHECK_DEADLOCK FALSE
