SPECIFICATION Spec
CONSTANTS T = 1000
          NoContent = ""
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
