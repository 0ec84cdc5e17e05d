CONSTANTS Nodes <- MCNodes
          MaxLen = 6
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Restores
CHECK_DEADLOCK FALSE
