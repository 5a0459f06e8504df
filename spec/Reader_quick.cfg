CONSTANTS
  MaxOdd = 1
  BufSize = 16
  MaxLen = 59
SPECIFICATION RSpec
INVARIANTS Fits SameQuery NeverLost
PROPERTIES Ends ClosedEnds
CHECK_DEADLOCK FALSE
