CONSTANTS
  MaxRuns = 2
  MaxN = 2
SPECIFICATION Spec
INVARIANT Exact
INVARIANT OwnPoint
INVARIANT OnlyWanted
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
