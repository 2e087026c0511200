SPECIFICATION Spec
CONSTANTS
  MaxSegs = 2
  MaxCtls = 2
  NumSs = {2}
  Syms = {0}
  CtlEtas = {"0.0", "0.495", "0.8"}
  Autos = {3}
INVARIANTS SegsTiled BordersMeet ControlsKept Numbered Divisions Emit
PROPERTIES OnlyRefined
CHECK_DEADLOCK FALSE
