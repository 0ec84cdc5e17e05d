CONSTANTS
  Params = {1, 2}
  Exprs = {1}
  Start0 <- MStart
  MaxLen = 6
  Big = TRUE
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Known Fired
CHECK_DEADLOCK FALSE
