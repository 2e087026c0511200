SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Etas = {"0.2", "0.205", "0.5", "0.6"}
  DivEtas = {"0.2", "0.3", "0.595", "0.61", "0.8", "0.995", "0.0"}
  Edges = {1, 2, 3}
INVARIANTS Tiles Placed Covers Emit
PROPERTIES OnlyRefined
CONSTRAINT Continue
CHECK_DEADLOCK FALSE
