CONSTANTS
  MaxChanges = 2
  Wide = TRUE
  Links = 8
SPECIFICATION Spec
INVARIANT BaseIsFine
INVARIANT SomeChange
INVARIANT Verdicts
INVARIANT Masking
CHECK_DEADLOCK FALSE
