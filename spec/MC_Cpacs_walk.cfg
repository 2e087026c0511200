CONSTANTS
  MaxLen = 9
  Only = {}
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
