CONSTANT Ids = {0, 1}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANTS CbOnce PushOnce
