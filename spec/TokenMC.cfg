CONSTANTS MaxDate = 9
          MaxLen = 7
          Units = 48
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS InPeriod Contiguous Covers SameCut
PROPERTY Ends
CHECK_DEADLOCK FALSE
