SPECIFICATION Spec
INVARIANTS OneRule PointsWellDefined SpeedPreserved NeverBoth AllPointsInOrder Emit
CHECK_DEADLOCK FALSE
