SPECIFICATION Spec
CONSTANTS
  MaxSegs = 3
  MaxCtls = 1
  NumSs = {0, 2}
  Syms = {0, 2, 3}
  CtlEtas = {"0.0", "0.495", "1.0"}
  Autos = {3}
INVARIANTS SegsTiled BordersMeet ControlsKept Numbered Divisions Emit
PROPERTIES OnlyRefined
CHECK_DEADLOCK FALSE
