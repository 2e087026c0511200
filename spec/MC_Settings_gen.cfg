CONSTANTS
  MaxLen = 4
  Objs = {"a", "b"}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
