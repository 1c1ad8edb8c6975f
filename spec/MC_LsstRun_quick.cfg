SPECIFICATION Spec
CONSTANTS
  NB = 2
  TYPES = {"noshear", "1p", "2m"}
  MAPVALS = {0, 8}
INVARIANTS
  EveryTypeAnswered
  EmptyTypesGiveNothing
  FlaggedIffFailed
  KernelRight
PROPERTIES
  Proceeds
CHECK_DEADLOCK FALSE
