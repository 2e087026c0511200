CONSTANTS
  MaxLen = 5
  Acs = {"A", "B"}
  MaxWings = 2
  Uids = {"u", "v"}
SPECIFICATION Spec
VIEW View
INVARIANT UidsUnique
INVARIANT NonEmpty
INVARIANT Flags
INVARIANT WalksComplete
PROPERTY RefusedChangesNothing
PROPERTY Independent
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
