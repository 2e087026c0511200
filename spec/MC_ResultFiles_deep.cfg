CONSTANTS
  MaxRuns = 2
  MaxN = 3
SPECIFICATION Spec
INVARIANT Exact
INVARIANT OwnPoint
INVARIANT OnlyWanted
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
