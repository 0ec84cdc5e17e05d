SPECIFICATION TSpec
CONSTRAINT Track
INVARIANTS Closed ListenedExist ValuesExist
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
