CONSTANTS MaxDate = 24
          MaxLen = 14
          Units = 48
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS InPeriod Contiguous Covers SameCut
PROPERTY Ends
CHECK_DEADLOCK FALSE
