CONSTANTS
  MaxLen = 12
  Versions = {1, 2}
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
