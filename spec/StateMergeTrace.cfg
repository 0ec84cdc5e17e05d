CONSTANTS
  Params = {1, 2, 3, 4, 5, 6}
  States = {1, 2, 3}
  Start0 <- TStart
SPECIFICATION TraceSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
