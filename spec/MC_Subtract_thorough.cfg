SPECIFICATION Spec
CONSTANTS
  IDS = {1, 2, 3}
  STRANGER = 9
  MAXEV = 7
  NPIX = 4
INVARIANTS
  StackIsHistory
  ImageIsDefinition
  RestoredWhenClosed
PROPERTIES
  OriginalKept
  StrangersChangeNothing
CHECK_DEADLOCK FALSE
