CONSTANTS MaxLen = 12
          Names = {"a", "b"}
          Depth = 2
          MaxMsgs = 2
          Sample = 60
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS MCConverged TypeOK
CHECK_DEADLOCK FALSE
