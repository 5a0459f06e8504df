SPECIFICATION GSpec
CONSTANTS Reqs = {1, 2, 3, 4, 5}
          Kinds = {"push", "peek", "fail", "refused", "bad", "deny", "stop"}
          NL = 1
          NA = 1
          MaxPass = 2
          MaxTicks = 2
INVARIANTS OwnReply OnceEach OnlyPermitted Ordered OnlyShutdownStops Placed Bounded AnsweredIfRun Emit
CHECK_DEADLOCK FALSE
