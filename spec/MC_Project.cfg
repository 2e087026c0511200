CONSTANTS
  MaxLen = 5
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY NeverTouchesOthers
PROPERTY RefusedHasNoEffect
PROPERTY CleanRemovesOutputs
PROPERTY CreatedRuns
CHECK_DEADLOCK FALSE
