CONSTANTS
  MaxOdd = 1
  BufSize = 16
  MaxLen = 80
SPECIFICATION RSpec
INVARIANTS Fits SameQuery NeverLost
PROPERTIES Ends ClosedEnds
CHECK_DEADLOCK FALSE
