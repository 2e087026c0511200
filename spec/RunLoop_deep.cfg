SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Points = {"A", "B", "C"}
  MaxLen = 7
INVARIANTS EachOnItsOwn OneFolderEach DividedOnce PrintCase
PROPERTY AllDone
