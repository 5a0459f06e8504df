SPECIFICATION Spec
CONSTANTS Reqs = {1, 2, 3}
          Kinds = {"push", "bad", "stop"}
          NL = 2
          NA = 2
          MaxPass = 1
INVARIANTS OwnReply OnceEach OnlyPermitted Ordered OnlyShutdownStops Placed Bounded AnsweredIfRun
PROPERTIES Refines AllAnswered ServedAll StopsCleanly
CHECK_DEADLOCK FALSE
