SPECIFICATION Spec
CONSTANTS
  MAXT = 3
  MAXB = 3
  ASKED = {"noshear", "1p", "2m", "1x"}
INVARIANTS
  OutcomeRight
  ProductsRight
  NoKeyTwice
  ShearsUndo
  TurningInverts
CHECK_DEADLOCK FALSE
