SPECIFICATION MSpec
CONSTANTS MaxHits = 4
 EvMax = 2
INVARIANTS Complete OnlyValid Rejected NothingElse Sorted Once
CHECK_DEADLOCK FALSE
