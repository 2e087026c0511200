CONSTANTS
  MaxLen = 10
  Objs = {"a", "b", "c"}
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
