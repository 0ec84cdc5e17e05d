CONSTANTS Pars = {"/a", "/b"}
          MaxLen = 9
SPECIFICATION MCSpec
ACTION_CONSTRAINT Emit
INVARIANTS CanSend Newest NothingOld
PROPERTIES EventuallySent
CHECK_DEADLOCK FALSE
