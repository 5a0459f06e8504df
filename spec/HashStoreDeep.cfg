SPECIFICATION Spec
CONSTANTS T = 2
          NoContent = ""
  Keys = {"a", "b", "c", "d", "e"}
VIEW View
INVARIANTS IndexOK CountsOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
