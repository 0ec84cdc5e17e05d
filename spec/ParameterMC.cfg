CONSTANTS
  Ids = {0}
  MaxLen = 3
  StartTypes = {"INT", "STRING", "VEC3F", "LIST", "BOOL"}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Typed CbOnce PushOnce
CHECK_DEADLOCK FALSE
