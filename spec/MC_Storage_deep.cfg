CONSTANTS
  MaxLen = 9
  Versions = {1, 2}
SPECIFICATION Spec
VIEW View
INVARIANT Portable
PROPERTY RoundTrip
PROPERTY OnlyTheFile
PROPERTY OnlyThatFile
PROPERTY SavingKeepsObjects
CHECK_DEADLOCK FALSE
