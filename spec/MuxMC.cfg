CONSTANTS Protos = {1, 2, 3}
          MaxLen = 7
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnlyExposed Distinct PendingBefore
CHECK_DEADLOCK FALSE
