CONSTANTS
  MaxLen = 1
  Opts = "many"
  Many = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
