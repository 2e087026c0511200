SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Etas = {"0.205", "0.6"}
  DivEtas = {"0.2", "0.595", "0.8", "0.0"}
  Edges = {1, 2}
INVARIANTS Tiles Placed Covers Emit
PROPERTIES OnlyRefined
CONSTRAINT Continue
CHECK_DEADLOCK FALSE
