SPECIFICATION Spec
CONSTANTS Round = 2
          MaxReq = 4
          MaxQueue = 6
INVARIANT OneEach
PROPERTIES Whole Reclaimed
CHECK_DEADLOCK FALSE
