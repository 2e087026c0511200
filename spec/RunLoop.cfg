SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Points = {"A", "B", "C"}
  MaxLen = 4
INVARIANTS EachOnItsOwn OneFolderEach DividedOnce PrintCase
PROPERTY AllDone
