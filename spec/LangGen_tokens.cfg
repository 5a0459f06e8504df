SPECIFICATION Spec
CONSTANTS Mode = "tokens"
          MaxLen = 6
INVARIANTS Spaced RoundTrip
CHECK_DEADLOCK FALSE
