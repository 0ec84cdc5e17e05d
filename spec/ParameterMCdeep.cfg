CONSTANTS
  Ids = {0}
  MaxLen = 4
  StartTypes = {"INT", "STRING", "VEC3F", "LIST", "BOOL", "FLOAT", "CHAR", "IMPULSE"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Typed CbOnce PushOnce
CHECK_DEADLOCK FALSE
