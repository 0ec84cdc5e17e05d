CONSTANTS Ids = {0, 1, 2, 3, 4, 5, 6, 7}
          Tags = {10, 11, 12, 13, 14, 15, 16, 17, 18, 19}
SPECIFICATION TSpec
CONSTRAINT Track
INVARIANTS TypeOK HooksBalanced
POSTCONDITION Accepted
