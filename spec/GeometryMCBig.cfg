SPECIFICATION GSpec
CONSTANTS Angles <- AAll
INVARIANTS Proper UndoOk Oriented
CHECK_DEADLOCK FALSE
