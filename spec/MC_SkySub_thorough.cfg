SPECIFICATION Spec
CONSTANTS
  W = 2
  VALUES = {0, 1, 4}
  MASKS = {0, 1}
  MAXN = 3
  MAXB = 2
INVARIANTS
  AsDefined
  UntouchedBefore
  Accounts
  TotalOnlyIfComplete
  LastTakenOut
CHECK_DEADLOCK FALSE
