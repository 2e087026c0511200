CONSTANTS
  MaxLen = 14
  Acs = {"A", "B"}
  MaxWings = 3
  Uids = {"u", "v", "w"}
SPECIFICATION Spec
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
