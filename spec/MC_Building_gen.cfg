CONSTANTS
  MaxLen = 4
  Acs = {"A"}
  MaxWings = 2
  Uids = {"u", "v"}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
