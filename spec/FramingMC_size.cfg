CONSTANTS Kind = "size"
          MaxSent = 2
          MaxLen = 2
          Garbage = FALSE
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exact Resync
CHECK_DEADLOCK FALSE
