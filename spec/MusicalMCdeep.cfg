CONSTANTS MaxTicks = 4
          Ticks = {0, 1, 3, 7}
          Sample0 = 400
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InBar Follows
PROPERTY Chained
CHECK_DEADLOCK FALSE
