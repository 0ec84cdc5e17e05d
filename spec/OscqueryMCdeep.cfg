CONSTANTS MaxLen = 13
          Names = {"a", "b"}
          Depth = 2
          MaxMsgs = 3
          Sample = 20
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS MCConverged TypeOK
CHECK_DEADLOCK FALSE
