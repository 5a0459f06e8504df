SPECIFICATION Spec
CONSTANTS T = 1000
          NoContent <- EmptyContent
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
