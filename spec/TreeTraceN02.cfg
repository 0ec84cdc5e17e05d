CONSTANTS Names01 = FALSE Notes02 = TRUE
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
