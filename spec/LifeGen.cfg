SPECIFICATION Spec
CONSTANTS
  NCfg = 8
  NBad = 6
  Limit <- MCLimit
  Off <- MCOff
INVARIANTS TypeOK StrokeWellFormed SavedApplies
PROPERTIES RefusedChangesNothing OnlyUpOrResetEnds RestoreRestores
CHECK_DEADLOCK FALSE
