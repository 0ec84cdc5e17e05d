CONSTANTS Trees = {1, 2, 3, 4, 5}
          MaxEdits = 2
          Sample = 20
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Converged UnderWay Closed
CHECK_DEADLOCK FALSE
