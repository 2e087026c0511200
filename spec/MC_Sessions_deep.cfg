CONSTANTS
  MaxLen = 9
  Kinds = {"ok", "load"}
  MaxHandles = 2
  MaxHeld = 2
  Points = {1, 2}
SPECIFICATION Spec
VIEW View
INVARIANT PointsInOrder
PROPERTY OwnFilesOnly
PROPERTY HandlesKeepTheirVersion
PROPERTY OnlyTheSteppedMoves
PROPERTY HeldStay
PROPERTY RunFiles
PROPERTY RefusedHasNoEffect
CHECK_DEADLOCK FALSE
