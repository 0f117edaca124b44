SPECIFICATION Fair
CONSTANTS MaxHits = 3
 EvMax = 2
INVARIANTS Complete OnlyValid Rejected NothingElse Sorted Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
