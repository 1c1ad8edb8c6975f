SPECIFICATION Spec
CONSTANTS
  NB = 3
  TYPES = {"noshear", "1p", "1m", "2m"}
  MAPVALS = {0, 3, 8}
INVARIANTS
  EveryTypeAnswered
  EmptyTypesGiveNothing
  FlaggedIffFailed
  KernelRight
PROPERTIES
  Proceeds
CHECK_DEADLOCK FALSE
