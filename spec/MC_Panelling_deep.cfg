SPECIFICATION Spec
CONSTANTS
  MaxSegs = 3
  MaxCtls = 2
  NumSs = {0, 3}
  Syms = {0, 1}
  CtlEtas = {"0.0", "0.33", "0.6", "1.0"}
  Autos = {2}
INVARIANTS SegsTiled BordersMeet ControlsKept Numbered Divisions Emit
PROPERTIES OnlyRefined
CHECK_DEADLOCK FALSE
