SPECIFICATION ESpec
CONSTANTS HitSets <- HitSetsAll
 Mins = {0, 2, 3}
 Needs = {2}
CHECK_DEADLOCK FALSE
