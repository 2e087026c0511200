CONSTANTS
  MaxLen = 2
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
