CONSTANT Proj = "S03"
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
