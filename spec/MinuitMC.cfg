CONSTANTS Trees = {1, 2, 3, 4, 5}
          MaxEdits = 1
          Sample = 1
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Converged UnderWay Closed
CHECK_DEADLOCK FALSE
