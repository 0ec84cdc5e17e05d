CONSTANTS Nodes <- MCNodes
          MaxLen = 8
SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Restores
CHECK_DEADLOCK FALSE
