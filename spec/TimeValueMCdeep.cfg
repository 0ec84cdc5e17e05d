CONSTANT Deep = TRUE
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS Laws Transitive
CHECK_DEADLOCK FALSE
