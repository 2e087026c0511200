CONSTANTS
  MaxLen = 5
  Versions = {1}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
