CONSTANTS
  MaxLen = 2
  Only = {}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
