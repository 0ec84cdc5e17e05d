CONSTANT Proj = "S02"
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
