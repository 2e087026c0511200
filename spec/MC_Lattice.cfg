SPECIFICATION Spec
CONSTANTS
  Ns = {1, 2, 5}
  Offsets = {"0.0", "0.7", "-0.4"}
INVARIANTS Tiles NormalUnit MirrorCommutes Points
CHECK_DEADLOCK FALSE
