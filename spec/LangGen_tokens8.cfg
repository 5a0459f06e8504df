SPECIFICATION Spec
CONSTANTS Mode = "tokens"
          MaxLen = 8
INVARIANTS Spaced RoundTrip
CHECK_DEADLOCK FALSE
