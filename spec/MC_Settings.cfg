CONSTANTS
  MaxLen = 6
  Objs = {"a", "b"}
SPECIFICATION Spec
VIEW View
PROPERTY Independent
PROPERTY SavingChangesNothing
PROPERTY DefaultsStay
PROPERTY DictOnlyByUser
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
