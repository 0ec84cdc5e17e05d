CONSTANTS Kind = "slip"
          MaxSent = 2
          MaxLen = 2
          Garbage = TRUE
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exact Resync
CHECK_DEADLOCK FALSE
