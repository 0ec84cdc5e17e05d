CONSTANT Deep = FALSE
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS Laws Transitive
CHECK_DEADLOCK FALSE
