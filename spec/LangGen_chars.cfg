SPECIFICATION Spec
CONSTANTS Mode = "chars"
          MaxLen = 3
INVARIANTS Spaced RoundTrip
CHECK_DEADLOCK FALSE
