SPECIFICATION Spec
CONSTANTS
  INST = {1, 2, 3}
  NOBS = 2
  NCFG = 2
  NGEN = 2
  LEN = 5
  SHAREDCACHE = FALSE
INVARIANTS
  Functional
  OwnFit
PROPERTIES
  OthersKept
  ResultsKept
CHECK_DEADLOCK FALSE
