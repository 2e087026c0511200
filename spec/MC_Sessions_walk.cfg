CONSTANTS
  MaxLen = 14
  Kinds = {"ok", "load", "mesh"}
  MaxHandles = 3
  MaxHeld = 5
  Points = {1, 2}
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
