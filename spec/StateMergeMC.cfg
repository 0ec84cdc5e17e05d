CONSTANTS
  Params = {1, 4, 5}
  States = {1, 2}
  Start0 <- MStart
  MaxLen = 4
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Merging OneEach
CHECK_DEADLOCK FALSE
