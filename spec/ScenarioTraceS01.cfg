CONSTANT Proj = "S01"
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
