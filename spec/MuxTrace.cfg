CONSTANTS Protos = {1, 2, 3}
SPECIFICATION TSpec
CONSTRAINT Track
INVARIANTS OnlyExposed Distinct PendingBefore
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
