CONSTANTS NameSet = {"a", "ab", "a.1", "b.2"} MaxNodes = 3 Deep = TRUE
SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS Sub Literal DeepMore Everything
CHECK_DEADLOCK FALSE
