CONSTANTS
  MaxLen = 4
  Only = {}
SPECIFICATION Spec
VIEW View
INVARIANT Fresh
INVARIANT Deflects
INVARIANT NamesStayUnique
PROPERTY OnlyChosen
PROPERTY RunKeepsInput
PROPERTY RefusedWritesNothing
PROPERTY EndsDoNotMatter
PROPERTY OrderOfDevices
PROPERTY OrderOfWings
PROPERTY OrderOfMaps
PROPERTY Separate
CHECK_DEADLOCK FALSE
