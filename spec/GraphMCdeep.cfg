CONSTANTS
  Nodes = {1, 2, 3}
  Params = {1}
  MaxLen = 5
  MaxEdges = 2
  MaxTicks = 2
  Kinds = {"G", "S", "SI", "SO", "DG", "DS", "P"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneState Ordered Live Delays ReadOnce
CHECK_DEADLOCK FALSE
