CONSTANTS Durs = {1, 2, 3, 7}
          MaxH = 8
          MaxEnv = 2
          GraphSet = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS RunOK DisposeClosed DateOK TokOK SyncLog Conserved
PROPERTIES Life NoMore Due NotEarly MaxFlag
CHECK_DEADLOCK FALSE
