CONSTANTS MaxLen = 6
 ChanSet = {"1", "16", "17"}
 NumSet = {"5", "128"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Closed ListenedExist ValuesExist
CHECK_DEADLOCK FALSE
