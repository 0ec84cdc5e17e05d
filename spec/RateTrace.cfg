CONSTANTS Pars = {"/a", "/b", "/c", "/a/x", "/d"}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
