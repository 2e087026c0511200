CONSTANTS
  MaxLen = 2
  Opts = "few"
  Many = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TwoViews
PROPERTY Grows
PROPERTY NothingIfNotSaved
PROPERTY ShowMakesNone
PROPERTY SaveOpensNone
PROPERTY EveryPointAlike
CHECK_DEADLOCK FALSE
