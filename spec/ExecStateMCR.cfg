CONSTANTS
  Params = {1, 3}
  Vecs = {}
  Devs = {1, 2}
  DevOf <- MDev
  Inlets = {1, 2}
  AParams = {}
  Frames = 1
  MaxLen = 7
  MaxTs = 1
  Regs = TRUE
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Kept SentOk Heard NoReg
CHECK_DEADLOCK FALSE
