CONSTANTS MaxTicks = 3
          Ticks = {0, 1, 3}
          Sample0 = 60
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InBar Follows
PROPERTY Chained
CHECK_DEADLOCK FALSE
