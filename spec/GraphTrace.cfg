CONSTANTS
  Nodes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Params = {1, 2, 3}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
