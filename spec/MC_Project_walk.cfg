CONSTANTS
  MaxLen = 9
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
