CONSTANTS Ids = {0, 1, 2}
          Tags = {10, 11}
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK HooksInv
PROPERTIES SendExact
