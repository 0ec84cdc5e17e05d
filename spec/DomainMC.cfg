CONSTANT Deep = FALSE
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS Laws
CHECK_DEADLOCK FALSE
