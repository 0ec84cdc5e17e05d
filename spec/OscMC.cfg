CONSTANTS
  MaxLen = 2
  Kinds = {"old", "10c", "11s", "exc"}
  PTypes = {"INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Mirrored OnePer RTyped
CHECK_DEADLOCK FALSE
