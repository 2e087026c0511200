CONSTANTS
  MaxLen = 8
  Objs = {"a", "b", "c"}
SPECIFICATION Spec
VIEW View
PROPERTY Independent
PROPERTY SavingChangesNothing
PROPERTY DefaultsStay
PROPERTY DictOnlyByUser
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
