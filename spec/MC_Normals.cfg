SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Defls = {"0.0", "10.0", "-25.0", "90.0"}
  Slopes = {"0.0", "0.15", "-0.3"}
INVARIANTS Unit TurnedByDeflection AlongHingeUnchanged TrailingEdgeDown NoTurnWithoutCause ImageMirrors MovedAsOriginal TurnsHinge
