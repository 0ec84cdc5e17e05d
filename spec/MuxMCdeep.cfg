CONSTANTS Protos = {1, 2, 3}
          MaxLen = 8
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnlyExposed Distinct PendingBefore
CHECK_DEADLOCK FALSE
