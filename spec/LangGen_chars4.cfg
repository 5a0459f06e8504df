SPECIFICATION Spec
CONSTANTS Mode = "chars"
          MaxLen = 4
INVARIANTS Spaced RoundTrip
CHECK_DEADLOCK FALSE
