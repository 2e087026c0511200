CONSTANTS
  MaxLen = 3
  Kinds = {"ok", "load", "mesh"}
  MaxHandles = 2
  MaxHeld = 3
  Points = {1, 2}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
