CONSTANTS MaxNodes = 3 MaxDepth = 2 MaxLen = 12 NameSet = {"a", "a.1", "b"}
SPECIFICATION Spec
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW View
INVARIANTS TreeOK Mirror
CHECK_DEADLOCK FALSE
