SPECIFICATION Spec
CONSTANTS Mode = "round"
          MaxLen = 2
INVARIANTS Spaced RoundTrip
CHECK_DEADLOCK FALSE
