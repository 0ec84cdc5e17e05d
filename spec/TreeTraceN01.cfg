CONSTANTS Names01 = TRUE Notes02 = FALSE
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
