CONSTANTS
  MaxLen = 4
  Opts = "few"
  Many = FALSE
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
