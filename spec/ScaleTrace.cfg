SPECIFICATION Spec
CONSTANTS T = 1000
          NoContent = ""
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
