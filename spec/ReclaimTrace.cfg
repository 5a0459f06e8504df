SPECIFICATION Spec
CONSTANTS Interval = 5000
          Round = 5
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
