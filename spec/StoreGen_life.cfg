SPECIFICATION Spec
CONSTANTS T = 2
          NoContent = ""
          Alphabet = "life"
          Emitting = TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK PassComplete
PROPERTIES Isolation ReadsWhatWasWritten AsIfAbsent NoUnaskedLoss LifetimeStable PassSound KeepsKind FailureChangesNothing AuthAllOrNothing BatchIsPrefixOfCommands EmptyIsNull
