CONSTANTS
  Params = {1, 2, 3, 4, 5, 6}
  Vecs = {4}
  Devs = {1, 2}
  DevOf <- TDev
  Inlets = {1, 2, 3, 4, 5}
  AParams = {1, 2}
  Frames = 4
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
