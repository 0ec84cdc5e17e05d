CONSTANTS
  MaxLen = 2
  Kinds = {"old", "10c", "10s", "11c", "11s", "exc", "exs"}
  PTypes = {"INT", "FLOAT", "BOOL", "CHAR", "STRING", "LIST", "VEC2F", "VEC3F", "VEC4F", "IMPULSE"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Mirrored OnePer RTyped
CHECK_DEADLOCK FALSE
