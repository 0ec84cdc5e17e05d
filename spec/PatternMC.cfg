CONSTANTS NameSet = {"a", "ab", "a.1"} MaxNodes = 2 Deep = FALSE
SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS Sub Literal DeepMore Everything
CHECK_DEADLOCK FALSE
