CONSTANTS
  MaxLen = 8
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
