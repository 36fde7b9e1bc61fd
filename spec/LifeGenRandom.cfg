SPECIFICATION SpecRandom
CONSTANTS
  NCfg = 8
  NBad = 6
  Limit <- MCLimit
  Off <- MCOff
INVARIANTS TypeOK StrokeWellFormed SavedApplies
CHECK_DEADLOCK FALSE
