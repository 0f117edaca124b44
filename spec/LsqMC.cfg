SPECIFICATION LSpec
CONSTANTS Xs = {0, 1, 2, 5}
 Step = 7
INVARIANTS Best Exact
CHECK_DEADLOCK FALSE
