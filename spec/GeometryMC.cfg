SPECIFICATION GSpec
CONSTANTS Angles <- AFew
INVARIANTS Proper UndoOk Oriented
CHECK_DEADLOCK FALSE
